"""C21: averages and total spin."""
import numpy as np
from scipy import sparse
from conf.harness import sections
from HamiltonianPy.averages import QuantumAverages, TotalSpinMatrices, TotalSpinAverages
from HamiltonianPy.tools.TotalSpin import TotalSpin

X = np.array([[0, .5], [.5, 0]])
YI = np.array([[0, -.5], [.5, 0]])
Z = np.array([[.5, 0], [0, -.5]])


def dense(m):
    return m.toarray() if sparse.issparse(m) else np.asarray(m)


def total(s, n):
    out = np.zeros((2 ** n, 2 ** n))
    for i in range(n):
        # element-wise, bit i of the basis index is the state of site i
        for c in range(2 ** n):
            b = (c >> i) & 1
            for a in (0, 1):
                r = c ^ ((a ^ b) << i)
                out[r, c] += s[a, b]
    return out


def rv(rng, n, cplx, scale):
    v = np.array([rng.uniform(-1, 1) + (1j * rng.uniform(-1, 1) if cplx else 0) for _ in range(n)])
    if rng.random() < 0.3:
        v[[rng.random() < 0.5 for _ in range(n)]] = 0
        v[rng.randrange(n)] = 1
    return v * scale


def matrices(rep):
    for n in range(1, 8 if rep.tier == "quick" else 10):
        for name, fn in (("TotalSpinMatrices", TotalSpinMatrices), ("TotalSpin", TotalSpin)):
            for again in (0, 1):
                x, y, z = fn(n)
                rep.case((name, n))
                for got, s, w in ((x, X, "x"), (y, YI, "y"), (z, Z, "z")):
                    d = dense(got)
                    rep.expect(d.shape == (2 ** n, 2 ** n) and np.allclose(d, total(s, n), atol=1e-12), name + "/" + w, "", n=n)
    for bad in (0, -1, 1.5):
        rep.raises(AssertionError, lambda: TotalSpinMatrices(bad), "TotalSpinMatrices/reject", bad)
        rep.raises(AssertionError, lambda: TotalSpin(bad), "TotalSpin/reject", bad)


def averages(rep):
    rng = rep.rng
    for r in rep.rounds(1500):
        n = rng.randint(1, 9)
        psi = rv(rng, n, rng.random() < 0.7, rng.choice([1.0, 5.0, 1e-3, 2 - 1j, 1j]))
        if r % 6 == 1:
            psi = psi / np.linalg.norm(psi) * (1 + rng.choice([3e-9, 4e-7, 9e-6, -2e-8, -3e-6]))       # almost normalized
        cplx = rng.random() < 0.6
        O = np.array([[rng.uniform(-1, 1) + (1j * rng.uniform(-1, 1) if cplx else 0) for _ in range(n)] for _ in range(n)])
        op = rng.choice([lambda x: x.copy(), sparse.csr_matrix, sparse.csc_matrix])(O)
        keep = psi.copy()
        inp = dict(psi=keep, O=O)
        column = r % 5 == 4
        rep.case((n, cplx, type(op).__name__))
        want = sum(psi[i].conjugate() * O[i, j] * psi[j] for i in range(n) for j in range(n)) / sum(abs(p) ** 2 for p in psi)
        if column:
            psi = psi.reshape(-1, 1)
            keep = psi.copy()
        got = QuantumAverages(psi, op)
        rep.expect(abs(got - want) < (1e-10 if r % 6 != 1 else 2e-13) * n * n + 1e-14, "QuantumAverages", "%r vs %r" % (got, want), **inp)
        rep.expect(np.array_equal(psi, keep) and np.array_equal(dense(op), O), "QuantumAverages/frame", "", **inp)


def calculator(rep):
    rng = rep.rng
    calcs = {n: TotalSpinAverages(n) for n in range(1, 6)}
    mats = {}
    for n in calcs:
        x, y, z = total(X, n), 1j * total(YI, n), total(Z, n)
        mats[n] = (x @ x + y @ y + z @ z, x, y, z)
    for r in rep.rounds(600):
        n = rng.randint(1, 5)
        psi = rv(rng, 2 ** n, rng.random() < 0.7, rng.choice([1.0, 7.0, 1e-2, 1j, 1 - 2j]))
        if r % 6 == 1:
            psi = psi / np.linalg.norm(psi) * (1 + rng.choice([3e-9, 4e-7, 9e-6, -2e-8, -3e-6]))       # almost normalized
        if rng.random() < 0.2:
            psi = psi.reshape(-1, 1)
        keep = psi.copy()
        v = psi.ravel()
        inp = dict(n=n, psi=keep)
        rep.case((n, psi.ndim))
        want = [np.vdot(v, m @ v) / np.vdot(v, v) for m in mats[n]]
        for again in (0, 1):
            got = calcs[n](psi)
            rep.expect(len(got) == 4 and np.allclose(got, want, rtol=1e-5 if r % 6 != 1 else 1e-12, atol=1e-9 if r % 6 != 1 else 2e-12), "calculator" + ("/again" if again else ""), "%r vs %r" % (got, want), **inp)
            rep.expect(np.array_equal(psi, keep), "calculator/frame", "", **inp)


def run(rep):
    sections(rep, matrices, averages, calculator)
