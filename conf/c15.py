"""C15: lattice_generator and special_cluster."""
import itertools
import math
import numpy as np
from conf.harness import sections
from conf import lat
from HamiltonianPy.lattice import lattice_generator, special_cluster
import HamiltonianPy.lattice._lattice_database as DB

R3 = math.sqrt(3)
CELLS = {
    "chain": ([[0.0]], [[1.0]]),
    "square": ([[0.0, 0.0]], [[1.0, 0.0], [0.0, 1.0]]),
    "triangle": ([[0.0, 0.0]], [[1.0, 0.0], [0.5, R3 / 2]]),
    "honeycomb": ([[0.0, -0.5 / R3], [0.0, 0.5 / R3]], [[1.0, 0.0], [0.5, R3 / 2]]),
    "kagome": ([[0.0, 0.0], [0.25, R3 / 4], [0.5, 0.0]], [[1.0, 0.0], [0.5, R3 / 2]]),
    "cubic": ([[0.0] * 3], [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]),
}
CLUSTERS = {"square_cross": ("square", 12, ["square_12", "cross"]), "square_z": ("square", 10, ["z"]), "square_s": ("square", 10, ["s"]),
            "triangle_star": ("triangle", 13, ["triangle_13", "star", "SD"]), "honeycomb_benzene": ("honeycomb", 6, ["honeycomb_6", "benzene"]),
            "honeycomb_diphenyl": ("honeycomb", 10, ["honeycomb_10", "diphenyl"]), "honeycomb_gear": ("honeycomb", 24, ["honeycomb_24", "gear"])}


def match(A, B):
    A, B = np.asarray(A), np.asarray(B)
    if A.shape != B.shape:
        return False
    used = [False] * len(B)
    for a in A:
        for k, b in enumerate(B):
            if not used[k] and np.allclose(a, b, atol=1e-9):
                used[k] = True
                break
        else:
            return False
    return True


def generator(rep):
    rng = rep.rng
    combos = list(itertools.product((1, 2, 3, 4), (1, 2, 3), (1, 2, 3)))
    rng.shuffle(combos)
    combos = [(12, 1, 1), (1, 11, 1), (8, 9, 1), (10, 7, 1), (1, 1, 9), (3, 1, 8), (1, 1, 1), (7, 1, 1), (1, 5, 1), (1, 1, 4), (1, 1, 3), (5, 6, 1), (1, 2, 2), (2, 2, 2)] + combos
    for c in combos:
        for which, (pts, vec) in CELLS.items():
            pts, vec = np.array(pts), np.array(vec)
            dim = vec.shape[1]
            n = c[:dim]
            rep.case((which, c))
            variants = [lambda: lattice_generator(which, *c), lambda: lattice_generator(which, num0=c[0], num1=c[1], num2=c[2])]
            cl = rng.choice(variants)()
            want = [p + np.array(ijk) @ vec for ijk in itertools.product(*[range(x) for x in n]) for p in pts]
            rep.expect(match(cl.points, want), "points", "%s%r: %d points, expected %d" % (which, c, cl.point_num, len(want)))
            rep.expect(np.allclose(cl.vectors, vec * np.array(n)[:, None], atol=1e-12), "vectors", cl.vectors, which=which, c=c)
            # spoil the answer: later answers must not change
            for arr in (cl.points, cl.vectors, cl.bs):
                arr += 5.0
            rep.expect(match(cl.points, want), "isolation", which, c=c)
    for which, (pts, vec) in CELLS.items():
        cl = lattice_generator(which)
        rep.expect(match(cl.points, pts) and np.allclose(cl.vectors, vec), "cell/after", which)
    for bad in ("foo", "", "Square", "star", None, "square_cross"):
        rep.raises(KeyError, lambda: lattice_generator(bad), "unknown", bad)
    for bad in ((0, 1, 1), (1, -1, 1), (1, 1, 0), (1.0, 1, 1)):
        for which in CELLS:
            rep.raises((AssertionError, ValueError, TypeError), lambda: lattice_generator(which, *bad), "bad/counts", bad)


def large(rep):
    """Counts beyond small integers, compared as sorted sets."""
    rng = rep.rng
    for which, c in [("chain", (rng.randint(130, 400), 1, 1)), ("square", (1, 131, 1)), ("square", (14, 17, 1)), ("honeycomb", (130, 1, 1)), ("cubic", (1, 1, 129))]:
        pts, vec = map(np.array, CELLS[which])
        n = c[:vec.shape[1]]
        rep.case((which, c))
        cl = lattice_generator(which, *c)
        want = np.array([p + np.array(ijk) @ vec for ijk in itertools.product(*[range(x) for x in n]) for p in pts])
        order = lambda a: a[np.lexsort(np.round(a, 6).T + 0.0)]
        rep.expect(cl.points.shape == want.shape and np.allclose(order(np.array(cl.points)), order(want), atol=1e-9), "large/points", which, c=c)
        rep.expect(np.allclose(cl.vectors, vec * np.array(n)[:, None], atol=1e-12), "large/vectors", cl.vectors, which=which, c=c)


def same_sublattice_sites(P, V, cell):
    """Are the periodic images of P exactly the sites of the cell lattice, up to a rigid translation (and the cell's
    own orientation)?"""
    pts, vec = np.array(CELLS[cell][0]), np.array(CELLS[cell][1])
    inv = np.linalg.inv(vec)
    # the cluster's vectors are translations of the parent lattice
    if not np.allclose(V @ inv, np.rint(V @ inv), atol=1e-9):
        return "translation vectors are not parent-lattice vectors"
    ratio = abs(np.linalg.det(V) / np.linalg.det(vec)) * len(pts)
    if abs(ratio - len(P)) > 1e-6:
        return "wrong number of points: %d for a volume of %r sites" % (len(P), ratio)
    for s in range(len(pts)):
        off = P[0] - pts[s]
        cls = []
        ok = True
        for p in P:
            hit = False
            for q in pts:
                f = (p - off - q) @ inv
                if np.allclose(f, np.rint(f), atol=1e-7):
                    hit = True
            ok = ok and hit
        if ok:
            break
    else:
        return "a point is not a parent-lattice site"
    for i, j in itertools.combinations(range(len(P)), 2):
        f = (P[i] - P[j]) @ np.linalg.inv(V)
        if np.allclose(f, np.rint(f), atol=1e-7):
            return "points %d and %d are equivalent" % (i, j)
    return None


def clusters(rep):
    for name, (cell, count, aliases) in CLUSTERS.items():
        ref = None
        for a in [name] + aliases:
            cl = special_cluster(a)
            rep.case((a,))
            P, V = cl.points, cl.vectors
            bad = same_sublattice_sites(P, V, cell)
            rep.expect(bad is None, "cluster", "%s: %s" % (a, bad))
            rep.expect(len(P) == count, "cluster/count", "%s: %d" % (a, len(P)))
            if ref is None:
                ref = (P, V)
            rep.expect(np.array_equal(ref[0], P) and np.array_equal(ref[1], V), "cluster/alias", a)
            cl.points[:] = 0
            x = cl.points
            x += 3
            y = cl.vectors
            y += 3
            rep.expect(np.array_equal(cl.points, ref[0]), "cluster/isolation", a)
    for bad in ("foo", "square", "", None, "STAR"):
        rep.raises(KeyError, lambda: special_cluster(bad), "cluster/unknown", bad)


def storage(rep):
    arrs = {k: (v, v.copy()) for k, v in vars(DB).items() if isinstance(v, np.ndarray)}
    objs = [lattice_generator(w, *c) for w in CELLS for c in ((1, 1, 1), (2, 1, 1), (2, 2, 2))]
    objs += [special_cluster(n) for n in CLUSTERS] + [special_cluster(a) for c in CLUSTERS.values() for a in c[2]]
    for o in objs:
        for attr, val in list(vars(o).items()) + [("points()", o.points), ("vectors()", o.vectors), ("bs()", o.bs)]:
            if isinstance(val, np.ndarray):
                for k, (v, _) in arrs.items():
                    rep.case((o.name, attr))
                    rep.expect(not np.shares_memory(v, val), "storage", "%s.%s shares memory with %s" % (o.name, attr, k))
    for k, (v, c) in arrs.items():
        rep.expect(np.array_equal(v, c), "database/changed", k)


def run(rep):
    sections(rep, storage, generator, large, clusters)
    rep.section = "clusters_after"
    clusters(rep)
