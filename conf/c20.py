"""C20: Green functions."""
import numpy as np
from conf.harness import sections
from conf.c19 import krylov
from HamiltonianPy import MultiKrylov, AoC
from HamiltonianPy.GreenFunction import (
    GFSolverExactSingle, GFSolverExactMultiple, GFSolverLanczosSingle, GFSolverLanczosMultiple,
    RGFSolverExactSingle, RGFSolverExactMultiple, RGFSolverLanczosSingle, RGFSolverLanczosMultiple)


def crand(rng, *shape, cplx=True):
    n = int(np.prod(shape))
    a = np.array([rng.uniform(-1, 1) + (1j * rng.uniform(-1, 1) if cplx else 0) for _ in range(n)])
    return a.reshape(shape)


class Setup:
    def __init__(self, rng, dim=None):
        n = self.n = dim or rng.randint(1, 6)
        cplx = rng.random() < 0.7
        H = crand(rng, n, n, cplx=cplx)
        self.H = (H + H.conj().T)
        self.GE = rng.uniform(-3, 3)
        gs = crand(rng, n, cplx=cplx)
        self.gs = gs / np.linalg.norm(gs)
        self.ops, self.mat = [], {}
        for i in range(rng.randint(1, 4)):
            op = AoC(rng.choice([0, 1]), site=(i, 0), spin=rng.randint(0, 1))
            m = crand(rng, n, n, cplx=cplx)
            self.mat[op] = m
            self.mat[op.dagger()] = m.conj().T
            self.ops.append(op)
            if rng.random() < 0.4:
                self.ops.append(op.dagger())
        self.ex = {op: m @ self.gs for op, m in self.mat.items()}
        self.eta = rng.choice([0.01, 0.1, 0.5, 1.0, 0.001, 3.0, -0.1, -0.5])

    def ref(self, A, B, w, sign, eta):
        z = w + 1j * eta
        K = self.H - self.GE * np.eye(self.n)
        M = z * np.eye(self.n) + K if sign == "+" else z * np.eye(self.n) - K
        return self.gs.conj() @ self.mat[A] @ np.linalg.inv(M) @ self.mat[B] @ self.gs

    def rref(self, A, B, w, sign, eta):
        a, b = self.ref(A, B, w, "-", eta), self.ref(B, A, w, "+", eta)
        return a + b if sign == "+" else a - b

    def cond(self, ws, eta):
        K = self.H - self.GE * np.eye(self.n)
        e = np.linalg.eigvalsh(K)
        return min(abs(w + 1j * eta + s * x) for w in ws for x in e for s in (1, -1))


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def check(rep, S, rng, tag, single, multiple, args, refs, tol):
    As = [rng.choice(S.ops) for _ in range(rng.randint(1, 3))]
    Bs = [rng.choice(S.ops) for _ in range(rng.randint(1, 4))]
    As = list(dict.fromkeys(As))
    Bs = list(dict.fromkeys(Bs))
    ws = np.array([rng.uniform(-4, 4) for _ in range(rng.randint(1, 4))])
    inp = dict(H=S.H, GE=S.GE, gs=S.gs, As=As, Bs=Bs, ws=ws, eta=S.eta)
    use = [("+", dict(eta=S.eta, sign="+"), S.eta), ("-", dict(eta=S.eta, sign="-"), S.eta)]
    if rng.random() < 0.3:
        use.append(("+", dict(), 0.01))
    for sign, kw, eta in use:
        if S.cond(ws, eta) < 5e-3:
            continue
        rep.case((tag, sign, len(As), len(Bs), len(ws), S.n))
        want = np.array([[[refs(A, B, w, sign, eta) for w in ws] for B in Bs] for A in As])
        scale = max(1.0, np.max(np.abs(want)))
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                got = single(ws[0], A, B, *args, **kw)
                rep.expect(close(got / scale, want[i, j, 0] / scale, tol), tag + "/single", "%r vs %r" % (got, want[i, j, 0]), sign=sign, **inp)
        keep = ws.copy()
        got = multiple(ws, As, Bs, *args, **kw)
        rep.expect(close(np.asarray(got) / scale, want / scale, tol), tag + "/multiple", "%r vs %r" % (got, want), sign=sign, **inp)
        got = multiple(ws, As, Bs, *args, structure="array", **kw)
        rep.expect(close(np.asarray(got) / scale, want / scale, tol), tag + "/multiple", "%r vs %r" % (got, want), sign=sign, **inp)
        got = multiple(ws, As, Bs, *args, structure="dict", **kw)
        rep.expect(set(got) == {(A, B) for A in As for B in Bs}, tag + "/dict-keys", list(got), sign=sign, **inp)
        for i, A in enumerate(As):
            for j, B in enumerate(Bs):
                rep.expect(close(np.asarray(got[A, B]) / scale, want[i, j] / scale, tol), tag + "/dict", "%r vs %r" % (got[A, B], want[i, j]), sign=sign, A=A, B=B, **inp)
        rep.expect(np.array_equal(ws, keep), tag + "/frame", "", **inp)


def exact(rep):
    rng = rep.rng
    for r in rep.rounds(400):
        S = Setup(rng)
        H0 = S.H.copy()
        ex0 = {k: v.copy() for k, v in S.ex.items()}
        args = (S.GE, S.H, S.ex)
        check(rep, S, rng, "GFExact", GFSolverExactSingle, GFSolverExactMultiple, args, S.ref, 1e-8)
        check(rep, S, rng, "RGFExact", RGFSolverExactSingle, RGFSolverExactMultiple, args, S.rref, 1e-8)
        rep.expect(np.array_equal(H0, S.H) and set(S.ex) == set(ex0) and all(np.array_equal(ex0[k], S.ex[k]) for k in ex0), "exact/frame", "", H=H0)


def lanczos(rep):
    rng = rep.rng
    for r in rep.rounds(400):
        S = Setup(rng, rng.randint(1, 6))
        Qs = [krylov(S.H, v, S.n) for v in S.ex.values()]
        if any(q is None or q.shape[1] != S.n for q in Qs):
            continue
        mats, vecs = MultiKrylov(S.H, S.ex, krylov_space_dim=rng.choice([S.n, 50]))
        if any(np.shape(m) != (S.n, S.n) for m in mats.values()):
            continue
        keep = {k: np.array(m) for k, m in mats.items()}
        keepv = {k: {q: np.array(x) for q, x in v.items()} for k, v in vecs.items()}
        args = (S.GE, mats, vecs)
        check(rep, S, rng, "GFLanczos", GFSolverLanczosSingle, GFSolverLanczosMultiple, args, S.ref, 1e-5)
        check(rep, S, rng, "RGFLanczos", RGFSolverLanczosSingle, RGFSolverLanczosMultiple, args, S.rref, 1e-5)
        rep.expect(all(np.array_equal(keep[k], mats[k]) for k in keep) and all(np.array_equal(keepv[k][q], vecs[k][q]) for k in keepv for q in keepv[k]), "lanczos/frame", "", H=S.H)


def run(rep):
    sections(rep, exact, lanczos)
