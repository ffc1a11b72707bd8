"""C19: Lanczos projection."""
import numpy as np
from scipy import sparse
from conf.harness import sections
from HamiltonianPy import KrylovRepresentation, MultiKrylov

THRESHOLD = 1e-4


def rand_h(rng, n, cplx, kind):
    def rnd():
        return rng.uniform(-1, 1) + (1j * rng.uniform(-1, 1) if cplx else 0)
    A = np.array([[rnd() for _ in range(n)] for _ in range(n)])
    H = A + A.conj().T
    if kind == "block":
        k = rng.randint(1, n)
        H[:k, k:] = 0
        H[k:, :k] = 0
    elif kind == "weak":
        k = rng.randint(1, n)
        H[:k, k:] *= rng.choice([3e-4, 1e-3, 1e-2]) / 0.3
        H[k:, :k] = H[:k, k:].conj().T
    elif kind == "diag":
        H = np.diag(np.array([float(rng.randint(-2, 2)) for _ in range(n)])).astype(H.dtype)
    elif kind == "degenerate":
        w, v = np.linalg.eigh(H)
        w = np.array([float(rng.choice([-1, 0, 2])) for _ in range(n)])
        H = (v * w) @ v.conj().T
        H = (H + H.conj().T) / 2
    return H


def rand_v(rng, n, cplx, sparse_=False):
    v = np.array([(rng.uniform(-1, 1) + (1j * rng.uniform(-1, 1) if cplx else 0)) * (0 if sparse_ and rng.random() < 0.6 else 1) for _ in range(n)])
    if np.linalg.norm(v) < 0.05:
        v[rng.randrange(n)] = 1.0
    return v


def krylov(H, v0, dim):
    """Orthonormal Krylov basis grown one vector at a time; None if a residual is near the threshold or too many are small."""
    n = len(v0)
    Q = [v0 / np.linalg.norm(v0)]
    small = 0
    while len(Q) < dim:
        w = H @ Q[-1]
        for _ in range(3):
            for q in Q:
                w = w - np.vdot(q, w) * q
        r = np.linalg.norm(w)
        if r < 1e-9:
            break
        small += r < 2e-2
        if r < 2 * THRESHOLD or small > 2:
            return None
        Q.append(w / r)
    return np.array(Q).T


def one(rep, rng, n, cplx, kind, scale, r=0):
    H = rand_h(rng, n, cplx, kind)
    vc = rng.choice([cplx, True]) if not cplx else rng.choice([True, True, False])
    form = rng.choice(["dense", "csr", "csc"])
    M = {"dense": lambda x: x.copy(), "csr": sparse.csr_matrix, "csc": sparse.csc_matrix}[form](H)
    v0 = rand_v(rng, n, vc, kind == "block") * scale
    if kind == "weak" and rng.random() < 0.6:
        v0[rng.randint(1, n):] = 0
        if np.linalg.norm(v0) < 1e-3:
            v0[0] = 1.0
    if r % 7 == 3:
        v0 = np.array([rng.randint(-3, 3) for _ in range(n)])
        if not v0.any():
            v0[0] = 2
    if r % 5 == 2:
        H = H + rng.choice([1e2, -3e1, 1e3] if kind == "full" else [1e2, -3e1]) * np.eye(n)
        M = {"dense": lambda x: x.copy(), "csr": sparse.csr_matrix, "csc": sparse.csc_matrix}[form](H)
    keys = [0, "a", (1, 2), "last"][:rng.randint(1, 4)]
    vecs = {k: rand_v(rng, n, rng.choice([cplx, vc])) * rng.choice([1.0, 1.0, 3.0, 0.2]) for k in keys}
    if rng.random() < 0.5:
        vecs[keys[-1]] = v0.copy()
    dim = rng.choice([1, 2, n, n + 3, rng.randint(1, n), 200])
    Q = krylov(H, v0, dim)
    if Q is None:
        return
    m = Q.shape[1]
    if r % 5 == 2 and kind != "full":
        dim = m                         # a large diagonal leaves too few digits to see the end of the space
    rep.case((n, cplx, kind, form, dim, m))
    inp = dict(H=H, v0=v0, dim=dim, form=form, kind=kind)
    keep = (v0.copy(), {k: v.copy() for k, v in vecs.items()}, H.copy())
    T, pv = KrylovRepresentation(M, vecs, v0, krylov_space_dim=dim) if dim != 200 or rng.random() < .5 else KrylovRepresentation(M, vecs, v0)
    T = np.asarray(T)
    rep.expect(T.shape == (m, m), "krylov/dimension", "%s instead of %d" % (T.shape, m), **inp)
    if T.shape != (m, m):
        return
    tol = 1e-6 * max(1.0, np.max(np.abs(H))) * n
    rep.expect(np.allclose(T, Q.conj().T @ H @ Q, atol=tol), "krylov/matrix", T, **inp)
    rep.expect(np.isrealobj(T) or np.max(np.abs(np.imag(T))) == 0, "krylov/real", "", **inp)
    rep.expect(np.array_equal(T, T.T), "krylov/symmetric", "", **inp)
    if m > 2:
        off = T - np.triu(np.tril(T, 1), -1)
        rep.expect(np.max(np.abs(off)) == 0, "krylov/tridiagonal", "", **inp)
    rep.expect(set(pv) == set(vecs), "krylov/keys", list(pv), **inp)
    for k in vecs:
        got = np.asarray(pv[k])
        ref = Q.conj().T @ keep[1][k]
        rep.expect(got.shape == (m,) and np.allclose(got, ref, atol=tol * max(1, np.linalg.norm(ref))), "krylov/vectors", "%r: %s vs %s" % (k, got, ref), **inp)
    rep.expect(np.array_equal(v0, keep[0]) and all(np.array_equal(vecs[k], keep[1][k]) for k in vecs) and list(vecs) == list(keep[1]), "krylov/frame", "", **inp)
    MM = M.toarray() if sparse.issparse(M) else M
    rep.expect(np.array_equal(MM, keep[2]), "krylov/frame-matrix", "", **inp)


def single(rep):
    rng = rep.rng
    for r in rep.rounds(1500):
        one(rep, rng, rng.randint(1, 8), rng.random() < 0.6, rng.choice(["full", "full", "block", "weak", "diag", "degenerate"]), rng.choice([1.0, 1.0, 5.0, 0.01, 100.0]), r)


def chains(rep):
    """Long recursions: on a chain started at its end the basis is the sites, whatever the phases of the bonds."""
    rng = rep.rng
    for r in rep.rounds(30):
        n = rng.choice([rng.randint(20, 90), rng.randint(90, 240)])
        # dyadic entries and bonds along the axes of the complex plane: the recursion is free of rounding
        e = np.array([rng.randint(-8, 8) / 8 for _ in range(n)])
        t = np.array([rng.choice([0.25, 0.5, 1.0, 2.0]) * rng.choice([1, -1, 1j, -1j]) for _ in range(n - 1)])
        dim = rng.choice([None, n, rng.randint(1, n), n + 5])
        M = sparse.diags([t.conj(), e, t], [-1, 0, 1], format="csr").astype(np.complex128)
        M = M if r % 2 else M.toarray()
        ph = np.concatenate(([1.0], np.cumprod(t.conj() / np.abs(t))))
        v0 = np.zeros(n, dtype=complex)
        v0[0] = 2.0
        w = np.array([rng.uniform(-1, 1) + 1j * rng.uniform(-1, 1) for _ in range(n)])
        m = min(n, 200 if dim is None else dim)
        rep.case((n, dim, r % 2))
        T, pv = KrylovRepresentation(M, {"w": w}, v0, **({} if dim is None else {"krylov_space_dim": dim}))
        want = np.diag(e[:m]) + np.diag(np.abs(t[:m - 1]), 1) + np.diag(np.abs(t[:m - 1]), -1)
        rep.expect(np.shape(T) == (m, m) and np.allclose(T, want, atol=1e-9), "chain/matrix", "", n=n, dim=dim)
        rep.expect(np.shape(pv["w"]) == (m,) and np.allclose(pv["w"], ph[:m].conj() * w[:m], atol=1e-9), "chain/vectors", "", n=n, dim=dim)


def negligible(rep):
    rng = rep.rng
    for r in rep.rounds(60):
        n = rng.randint(1, 6)
        H = rand_h(rng, n, True, "full")
        v = rand_v(rng, n, True)
        small = v / np.linalg.norm(v) * rng.choice([0.0, 1e-6, 5e-5])
        rep.case((n, float(np.linalg.norm(small))))
        rep.raises(ValueError, lambda: KrylovRepresentation(H, {"v": v}, small), "negligible", "", H=H, v0=small)
        rep.raises(ValueError, lambda: MultiKrylov(H, {"v": v, "w": small}), "negligible/multi", "", H=H, v0=small)


def multi(rep):
    rng = rep.rng
    for r in rep.rounds(400):
        n = rng.randint(1, 7)
        cplx = rng.random() < 0.6
        H = rand_h(rng, n, cplx, rng.choice(["full", "block", "weak", "degenerate"]))
        M = rng.choice([lambda x: x.copy(), sparse.csr_matrix])(H)
        vecs = {("k", i): rand_v(rng, n, cplx) * rng.choice([1.0, 2.0]) for i in range(rng.randint(1, 4))}
        dim = rng.choice([2, n, 200])
        Qs = {k: krylov(H, v, dim) for k, v in vecs.items()}
        if any(q is None for q in Qs.values()):
            continue
        rep.case((n, cplx, dim, len(vecs)))
        keep = {k: v.copy() for k, v in vecs.items()}
        inp = dict(H=H, vecs=keep, dim=dim)
        mats, pvs = MultiKrylov(M, vecs, krylov_space_dim=dim)
        rep.expect(set(mats) == set(vecs) == set(pvs), "multi/keys", "", **inp)
        tol = 1e-6 * max(1.0, np.max(np.abs(H))) * n
        for k, Q in Qs.items():
            T = np.asarray(mats[k])
            if not rep.expect(T.shape == (Q.shape[1],) * 2, "multi/dimension", T.shape, **inp):
                return
            rep.expect(np.allclose(T, Q.conj().T @ H @ Q, atol=tol), "multi/matrix", T, **inp)
            for k2 in vecs:
                ref = Q.conj().T @ keep[k2]
                rep.expect(np.shape(pvs[k][k2]) == ref.shape and np.allclose(pvs[k][k2], ref, atol=tol * max(1, np.linalg.norm(ref))), "multi/vectors", (k, k2), **inp)
        rep.expect(all(np.array_equal(vecs[k], keep[k]) for k in keep), "multi/frame", "", **inp)


def run(rep):
    sections(rep, negligible, multi, chains, single)
