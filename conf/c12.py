"""C12: reciprocal vectors and Brillouin-zone points."""
import itertools
import math
import numpy as np
from conf.harness import sections
from conf import lat
import HamiltonianPy.lattice as L
import HamiltonianPy.lattice._lattice_database as DB
from HamiltonianPy.lattice import Lattice, special_cluster, lattice_generator


def dual(rep):
    rng = rep.rng
    for i in rep.rounds(600):
        P, V = lat.rand_lattice(rng)
        cl = Lattice(P, V)
        bs = cl.bs
        rep.case((V.shape, tuple(V.ravel())))
        rep.expect(bs.shape == V.shape, "shape", bs.shape, V=V)
        scale = np.max(np.abs(V)) * np.max(np.abs(bs)) + 1
        rep.expect(np.allclose(V @ bs.T, 2 * np.pi * np.eye(len(V)), atol=1e-9 * scale), "dual", V @ bs.T, V=V)
        # in the span of V
        proj = np.linalg.pinv(V) @ V
        rep.expect(np.allclose(bs @ proj, bs, atol=1e-8 * scale), "span", bs, V=V)
        rep.expect(np.array_equal(cl.vectors, V) and np.array_equal(cl.points, P), "accessors", "")
        rep.expect((cl.point_num, cl.space_dim, cl.trans_dim) == (len(P), P.shape[1], len(V)), "dims", "")


NAMES = {"CHAIN_CELL": ("cell", "chain"), "SQUARE_CELL": ("cell", "square"), "TRIANGLE_CELL": ("cell", "triangle"),
         "HONEYCOMB_CELL": ("cell", "honeycomb"), "KAGOME_CELL": ("cell", "kagome"), "CUBIC_CELL": ("cell", "cubic"),
         "SQUARE_CROSS": ("sp", "square_cross"), "SQUARE_Z": ("sp", "square_z"), "SQUARE_S": ("sp", "square_s"),
         "TRIANGLE_STAR": ("sp", "triangle_star"), "HONEYCOMB_BENZENE": ("sp", "honeycomb_benzene"),
         "HONEYCOMB_DIPHENYL": ("sp", "honeycomb_diphenyl"), "HONEYCOMB_GEAR": ("sp", "honeycomb_gear")}
# points documented as corners of the zone
CORNERS = {"SQUARE_CELL": "MS", "SQUARE_Z": "MS", "SQUARE_S": "MS", "TRIANGLE_CELL": "KS", "HONEYCOMB_CELL": "KS", "KAGOME_CELL": "KS",
           "CUBIC_CELL": "KS", "TRIANGLE_STAR": "KS", "HONEYCOMB_BENZENE": "KS", "HONEYCOMB_GEAR": "KS"}


def nearest(k, B):
    """number of reciprocal vectors nearest to k, whether 0 is among them."""
    r = np.linalg.norm(k)
    ds = [np.linalg.norm(k - np.array(T) @ B) for T in itertools.product(range(-3, 4), repeat=len(B))]
    m = min(ds)
    return sum(1 for d in ds if d < m + 1e-9), r < m + 1e-9


def special_points(B, dim):
    """All points of the zone boundary with k. G = |G|^2/2 on the facets, by kind:
    facet centres (G/2 with exactly two nearest), and vertices."""
    Gs = [np.array(T) @ B for T in itertools.product(range(-2, 3), repeat=len(B)) if any(T)]
    facets = [G for G in Gs if nearest(G / 2, B) == (2, True)]
    verts = []
    for c in itertools.combinations(facets, dim):
        M = np.array(c)
        if abs(np.linalg.det(M)) < 1e-9:
            continue
        v = np.linalg.solve(M, np.array([g @ g / 2 for g in c]))
        if nearest(v, B)[1] and not any(np.allclose(v, w, atol=1e-9) for w in verts):
            verts.append(v)
    return [G / 2 for G in facets], verts


def edge_centres(verts, B):
    """Centres of the edges of a three-dimensional zone."""
    out = []
    for a, b in itertools.combinations(verts, 2):
        m = (a + b) / 2
        n, on = nearest(m, B)
        if on and n >= 4 and not any(np.allclose(m, v, atol=1e-9) for v in verts) and not any(np.allclose(m, o, atol=1e-9) for o in out):
            out.append(m)
    return out


def sameset(a, b):
    return len(a) == len(b) and all(any(np.allclose(x, y, atol=1e-9) for y in b) for x in a) and all(any(np.allclose(x, y, atol=1e-9) for y in a) for x in b)


def database(rep):
    for nm, (kind, which) in NAMES.items():
        cl = lattice_generator(which) if kind == "cell" else special_cluster(which)
        As, Bs, pts = getattr(DB, nm + "_AS"), getattr(DB, nm + "_BS"), getattr(DB, nm + "_POINTS")
        gamma = getattr(DB, nm + "_GAMMA")
        dim = As.shape[1]
        rep.case(("database", nm))
        rep.expect(np.allclose(As @ Bs.T, 2 * np.pi * np.eye(dim), atol=1e-9), "db/dual", nm)
        rep.expect(np.allclose(cl.bs, Bs, atol=1e-9), "db/bs", nm)
        rep.expect(np.array_equal(cl.vectors, As) and np.array_equal(cl.points, pts), "db/cluster", nm)
        rep.expect(gamma.shape == (dim,) and not gamma.any(), "db/gamma", nm)
        facets, verts = special_points(Bs, dim)
        for suffix in ("XS", "MS", "KS", "ES"):
            arr = getattr(DB, nm + "_" + suffix, None)
            if arr is None:
                continue
            rep.case(("points", nm, suffix))
            rep.expect(arr.ndim == 2 and arr.shape[1] == dim, "bz/shape", arr.shape, nm=nm, suffix=suffix)
            for k in arr:
                cnt, zero = nearest(k, Bs)
                rep.expect(zero and cnt >= 2, "bz/boundary", "%s_%s %s is not on the zone boundary" % (nm, suffix, k), cnt=cnt, zero=zero)
                if CORNERS.get(nm) == suffix:
                    rep.expect(cnt >= dim + 1, "bz/corner", "%s_%s %s is not a corner" % (nm, suffix, k), cnt=cnt)
            if CORNERS.get(nm) == suffix:
                want = verts
            elif dim == 3 and suffix == "MS":
                want = edge_centres(verts, Bs)
            else:
                want = facets
            rep.expect(sameset(list(arr), want), "bz/list", "%s_%s lists %d points, the zone has %d" % (nm, suffix, len(arr), len(want)))
            # exported under the same name
            rep.expect(getattr(L, nm + "_" + suffix) is arr or np.array_equal(getattr(L, nm + "_" + suffix), arr), "bz/export", nm)


def run(rep):
    sections(rep, database, dual)
    rep.section = "database_after_use"
    database(rep)
