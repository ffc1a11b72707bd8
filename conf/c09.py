"""C09: spin algebra, conjugates, Schwinger fermions, constants."""
import itertools
import numpy as np
from conf.harness import sections
from conf import fermion as F
from conf.c08 import S, entries, COEFFS, EXTREME, nudge
from HamiltonianPy.quantumoperator import SpinOperator, SpinInteraction, SiteID, StateID
from HamiltonianPy.quantumoperator import constant as K
from HamiltonianPy.quantumoperator.constant import SPIN_UP, SPIN_DOWN
from HamiltonianPy.indextable import IndexTable


def dense(ops, n, c):
    m = np.zeros((1 << n, 1 << n), dtype=complex)
    for (r, k), v in entries(ops, n, c).items():
        m[r, k] = v
    return m


def key(o):
    return (o.otype, tuple(o.coordinate))


def snap(x):
    if isinstance(x, SpinOperator):
        return ("S", key(x))
    if isinstance(x, SpinInteraction):
        return ("I", tuple(key(o) for o in x.components), x.coeff)
    return ("n", x)


def rand(rng, sites):
    r = rng.random()
    if r < 0.4:
        o = SpinOperator(rng.choice(list(S)), nudge(rng, rng.choice(sites)))
        return o, [key(o)], 1.0
    if r < 0.75:
        ops = [SpinOperator(rng.choice(list(S)), nudge(rng, rng.choice(sites))) for _ in range(rng.randint(1, 3))]
        c = rng.choice(COEFFS)
        return SpinInteraction(ops, coeff=c), [key(o) for o in ops], c
    c = rng.choice(COEFFS)
    return c, [], c


def cell(s):
    """Sites are the same when they agree to four decimals (the default precision)."""
    return tuple(int(10000 * x) for x in s)


def by_site(ops):
    d = {}
    for o, s in ops:
        d.setdefault(cell(s), []).append(o)
    return d


def algebra(rep):
    rng = rep.rng
    for k in rep.rounds(800):
        n = rng.randint(1, 4)
        sites = [(i - 1.5, 0.5 * (i % 2)) for i in range(n)]
        rng.shuffle(sites)
        table = IndexTable([SiteID(s) for s in sites])
        idx = {cell(s): i for i, s in enumerate(sites)}
        M = lambda ops, c: dense([(idx[cell(s)], o) for o, s in ops], n, c)
        a, oa, ca = rand(rng, sites)
        b, ob, cb = rand(rng, sites)
        if not oa and not ob:
            continue
        sa, sb = snap(a), snap(b)
        p = a * b
        rep.case((tuple(oa), tuple(ob)))
        if not rep.expect(isinstance(p, SpinInteraction), "product/type", type(p), a=a, b=b):
            continue
        want = M(oa + ob, complex(ca) * complex(cb))
        rep.expect(np.allclose(p.matrix_repr(table).toarray(), want), "product/matrix", "", a=str(a), b=str(b))
        rep.expect(by_site([key(o) for o in p.components]) == by_site(oa + ob), "product/components", p.components, a=str(a), b=str(b))
        rep.expect(abs(complex(p.coeff) - complex(ca) * complex(cb)) < 1e-12, "product/coeff", p.coeff, a=str(a), b=str(b))
        rep.expect(snap(a) == sa and snap(b) == sb, "product/frame", "", a=str(a), b=str(b))
        c, oc, cc = rand(rng, sites)
        q = p * c
        rep.expect(np.allclose(q.matrix_repr(table).toarray(), M(oa + ob + oc, complex(ca) * complex(cb) * complex(cc))), "product3", "", a=str(a), b=str(b), c=str(c))
        q = c * p
        rep.expect(np.allclose(q.matrix_repr(table).toarray(), M(oc + oa + ob, complex(ca) * complex(cb) * complex(cc))), "product3/left", "", a=str(a), b=str(b), c=str(c))
        s0 = snap(p)
        d = p.dagger()
        rep.expect(np.allclose(d.matrix_repr(table).toarray(), want.conj().T), "dagger/matrix", str(d), p=str(p))
        rep.expect(snap(d.dagger()) == s0 or np.allclose(d.dagger().matrix_repr(table).toarray(), want), "dagger/involution", str(d.dagger()), p=str(p))
        dd = d.dagger()
        rep.expect(by_site([key(o) for o in dd.components]) == by_site([key(o) for o in p.components]) and complex(dd.coeff) == complex(p.coeff),
                   "dagger/involution/components", str(dd), p=str(p))
        rep.expect(snap(p) == s0, "dagger/frame", "", p=str(p))
        if isinstance(a, SpinOperator):
            rep.expect(np.allclose(a.dagger().matrix_repr(table).toarray(), M(oa, 1).conj().T) and a.dagger().dagger() == a, "operator/dagger", a.dagger(), a=a)
            rep.expect(np.allclose(a.matrix(), S[a.otype]), "operator/matrix", a.matrix(), a=a)
        if isinstance(p, SpinInteraction):
            p.coeff = 9
            rep.expect(snap(a) == sa and snap(b) == sb, "product/isolated", "")


def fermion_matrix(terms, sites, n, ups):
    """Matrix of the terms between singly occupied kets; ups[mask bit]: up <-> first basis state (bit 0)."""
    pos = {}
    for i, s in enumerate(sites):
        pos[(s, SPIN_UP)] = 2 * i
        pos[(s, SPIN_DOWN)] = 2 * i + 1
    kets = []
    for m in range(1 << n):
        v = 0
        for i in range(n):
            v |= 1 << (2 * i + (m >> i & 1))
        kets.append(v)
    inv = {v: m for m, v in enumerate(kets)}
    out = np.zeros((1 << n, 1 << n), dtype=complex)
    for t in terms:
        string = [(pos[(tuple(a.coordinate), a.spin)], a.otype == K.CREATION) for a in t.components]
        for m, v in enumerate(kets):
            r = F.act(string, v)
            if r is not None and r[0] in inv:
                out[inv[r[0]], m] += complex(t.coeff) * r[1]
    return out


def schwinger(rep):
    rng = rep.rng
    for k in rep.rounds(400):
        n = rng.randint(1, 3)
        sites = [(float(i), -0.5 * i) for i in range(n)]
        rng.shuffle(sites)
        idx = {s: i for i, s in enumerate(sites)}
        o, s = rng.choice(list(S)), rng.choice(sites)
        op = SpinOperator(o, s)
        terms = op.Schwinger()
        rep.case((n, o, idx[s]))
        rep.expect(np.allclose(fermion_matrix(terms, sites, n, None), dense([(idx[s], o)], n, 1)), "Schwinger/operator", [str(t) for t in terms], op=op)
        seq = [SpinOperator(rng.choice(list(S)), rng.choice(sites)) for _ in range(rng.randint(1, 4))]
        c = rng.choice(COEFFS)
        it = SpinInteraction(seq, coeff=c)
        s0 = snap(it)
        terms = it.Schwinger()
        rep.case((n, tuple(key(x) for x in seq)))
        rep.expect(np.allclose(fermion_matrix(terms, sites, n, None), dense([(idx[tuple(x.coordinate)], x.otype) for x in seq], n, c)),
                   "Schwinger/interaction", "", seq=seq, c=c)
        rep.expect(snap(it) == s0, "Schwinger/frame", "")
        rep.expect(all(t.check_compatibility() for t in terms), "Schwinger/classification", "")


def constants(rep):
    eps = {("x", "y"): ("z", 1), ("y", "z"): ("x", 1), ("z", "x"): ("y", 1), ("y", "x"): ("z", -1), ("z", "y"): ("x", -1), ("x", "z"): ("y", -1)}
    sp = {"x": K.SPIN_X, "y": K.SPIN_Y, "z": K.SPIN_Z, "p": K.SPIN_P, "m": K.SPIN_M}
    sg = {"x": K.SIGMA_X, "y": K.SIGMA_Y, "z": K.SIGMA_Z, "p": K.SIGMA_P, "m": K.SIGMA_M}
    for a in "xyz":
        for b in "xyz":
            com = sp[a] @ sp[b] - sp[b] @ sp[a]
            w = 1j * eps[(a, b)][1] * sp[eps[(a, b)][0]] if a != b else 0 * com
            rep.case((a, b))
            rep.expect(np.array_equal(com, w), "commutator", com, a=a, b=b)
    rep.expect(np.array_equal(sp["p"], sp["x"] + 1j * sp["y"]) and np.array_equal(sp["m"], sp["x"] - 1j * sp["y"]), "ladder", "")
    for k in "xyzpm":
        rep.expect(np.array_equal(sp[k], S[k]), "spin", sp[k], k=k)
        rep.expect(np.array_equal(sg[k], 2 * sp[k]), "sigma", sg[k], k=k)
        rep.expect(np.array_equal(K.SPIN_MATRICES[k], sp[k]) and np.array_equal(K.SIGMA_MATRICES[k], sg[k]), "dicts", k)
    rep.expect(set(K.SPIN_MATRICES) == set(K.SIGMA_MATRICES) == set("xyzpm") == set(K.SPIN_OTYPES), "keys", "")


def run(rep):
    sections(rep, constants, schwinger, algebra)
    rep.section = "constants_after_use"
    constants(rep)
