"""Independent lattice oracle (numpy only for linear algebra)."""
import itertools
import math
import numpy as np
from HamiltonianPy.lattice import Lattice

R3 = math.sqrt(3.0)


def rand_lattice(rng, dim=None, trans=None, npts=None, skew=None, scale=None):
    """points, vectors with well separated images, exact to float precision."""
    while True:
        d = dim or rng.randint(1, 3)
        t = trans or rng.randint(1, d)
        n = npts or rng.randint(1, 5)
        sk = skew if skew is not None else rng.choice([0, 0, 1, 2, 4])
        V = np.zeros((t, d))
        for i in range(t):
            for j in range(d):
                V[i, j] = rng.choice([0.0, 0.0, 0.5, 1.0, -1.0, R3 / 2, rng.uniform(-1, 1)])
        for i in range(t):
            V[i, i] += rng.choice([1.0, 1.5, 2.0])
        for _ in range(sk):
            if t > 1:
                i, j = rng.sample(range(t), 2)
                V[i] = V[i] + rng.choice([-3, -2, -1, 1, 2, 3]) * V[j]
        V = V * (scale or rng.choice([1.0, 1.0, 1.0, 0.5, 3.0]))
        if rng.random() < 0.25:
            V = -V
        G = V @ V.T
        if abs(np.linalg.det(G)) < 0.02 or np.max(np.abs(V)) > 40:
            continue
        P = np.array([[rng.choice([rng.uniform(-2, 2), rng.randint(-2, 2) * 0.5]) for _ in range(d)] for _ in range(n)])
        # inequivalent points: images well separated from every point
        ok = True
        for i in range(n):
            for j in range(i + 1, n):
                try:
                    if min_image(P[j] - P[i], V) < 0.05:
                        ok = False
                except OverflowError:
                    ok = False
        if ok:
            return P, V


def translations(V, radius, centre):
    """All integer combinations T with |centre + T.V| <= radius (superset)."""
    t = V.shape[0]
    pinv = np.linalg.pinv(V)            # d x t
    c = centre @ pinv
    row = np.linalg.norm(pinv, axis=0)
    rngs = [range(int(math.floor(-c[k] - radius * row[k] - 1e-9)), int(math.ceil(-c[k] + radius * row[k] + 1e-9)) + 1) for k in range(t)]
    n = 1
    for r in rngs:
        n *= len(r)
    if n > 400000:
        raise OverflowError
    return itertools.product(*rngs)


def min_image(d, V):
    best = min(np.linalg.norm(d), np.linalg.norm(d - np.rint(d @ np.linalg.pinv(V)) @ V))
    for T in translations(V, best, d):
        best = min(best, np.linalg.norm(d + np.array(T) @ V))
    return best


def pair_distances(P, V, radius):
    """list of (i, j, T, distance) with image of j by T within radius of i (all ordered pairs)."""
    out = []
    n = len(P)
    for i in range(n):
        for j in range(n):
            d = P[j] - P[i]
            Ts = np.array(list(translations(V, radius, d)), dtype=int).reshape(-1, V.shape[0])
            if len(Ts) == 0:
                continue
            L = np.linalg.norm(d + Ts @ V, axis=-1)
            for k in np.nonzero(L <= radius)[0]:
                out.append((i, j, tuple(int(x) for x in Ts[k]), float(L[k])))
    return out


def distinct(ds, tol=1e-7):
    out = []
    for d in sorted(ds):
        if not out or d - out[-1] > tol:
            out.append(d)
    return out


def well_separated(ds, gap=6e-4):
    return all(b - a > gap for a, b in zip(ds, ds[1:]))
