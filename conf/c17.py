"""C17: rotations."""
import itertools
import math
import numpy as np
from conf.harness import sections
import HamiltonianPy.rotation3d as R

TH = [0.0, 0.3, -1.1, math.pi / 2, math.pi, -math.pi / 3, 2.5, 4.0, 2 * math.pi, 7.7, -9.0]


def rodrigues(n, t):
    n = np.asarray(n, float)
    n = n / math.sqrt(float(n @ n))
    K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * (K @ K)


AX = {"X": (1, 0, 0), "Y": (0, 1, 0), "Z": (0, 0, 1)}


def both(rep, fn, want, t_args, key, atol=1e-9, **inp):
    """fn(*angles, deg, inversion); want for the radian angles."""
    for inv in (False, True):
        w = -want if inv else want
        m = fn(*t_args, deg=False, inversion=inv)
        rep.expect(m.shape == (3, 3) and np.allclose(m, w, atol=atol), key, m, want=w, inversion=inv, **inp)
        d = fn(*[math.degrees(t) for t in t_args], deg=True, inversion=inv)
        rep.expect(d.shape == (3, 3) and np.allclose(d, w, atol=atol), key + "/deg", d, want=w, inversion=inv, **inp)
        m2 = fn(*t_args, inversion=inv) if inv else fn(*t_args)
        rep.expect(np.array_equal(m, m2), key + "/default", "", **inp)
        rep.expect(np.allclose(m @ m.T, np.eye(3), atol=1e-9) and abs(np.linalg.det(m) - (-1 if inv else 1)) < 1e-9, key + "/orthogonal", m, **inp)
        m += 3.0


def named(rep):
    rng = rep.rng
    for t in TH + [rng.uniform(-20, 20) for _ in range(60)] + [s * 10 ** rng.uniform(-4, 2) for _ in range(20) for s in (1, -1)]:
        for a, n in AX.items():
            rep.case((a, t))
            both(rep, getattr(R, "Rotation" + a), rodrigues(n, t), (t,), "Rotation" + a, t=t)


def general(rep):
    rng = rep.rng
    axes = [list(a) for a in itertools.product((-1, 0, 1), repeat=3) if any(a)]
    axes += [[0, 0, 5.0], [0, 0, -0.001], [1e-3, 0, 0], [0, -7, 0], [1e-6, 0, 1], [0, 1e-6, -1], [2, -3, 1e-7]]
    axes += [[rng.uniform(-3, 3) * 10 ** rng.randint(-3, 3) for _ in range(3)] for _ in range(80)]
    axes += [[1e-9, 0.0, 0.0], [0.0, 0.0, 2e-10], [1e-12, 0, 1.0], [0, -1e-11, -2.0]]
    for ax in axes:
        for t in rng.sample(TH, 3) + [rng.uniform(-7, 7)]:
            rep.case((tuple(ax), t))
            for mk in (list, tuple, np.array):
                a = mk(ax)
                if mk is list and rng.random() < 0.2:
                    t = rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 1)
                both(rep, lambda th, **kw: R.RotationGeneral(a, th, **kw), rodrigues(ax, t), (t,), "RotationGeneral/cartesian", atol=1e-9, axis=ax, t=t)
                rep.expect(np.array_equal(np.array(a, float), np.array(ax, float)), "RotationGeneral/frame", a)
    sph = [(0.0, 0.0), (0.4, 0.0), (0.0, math.pi), (1.0, math.pi / 2), (-2.0, 3.0), (5.0, 1.0)] + [(rng.uniform(-4, 7), rng.uniform(0, math.pi)) for _ in range(60)]
    for al, be in sph:
        n = (math.sin(be) * math.cos(al), math.sin(be) * math.sin(al), math.cos(be))
        for t in rng.sample(TH, 3):
            rep.case((al, be, t))
            both(rep, lambda a, b, th, **kw: R.RotationGeneral([a, b], th, **kw), rodrigues(n, t), (al, be, t), "RotationGeneral/spherical", al=al, be=be, t=t)
    for bad in ([0, 0, 0], (0.0, 0.0, 0.0), np.zeros(3), [1e-12, 0, 0], [1], [], [1, 2, 3, 4]):
        rep.raises(ValueError, lambda: R.RotationGeneral(bad, 0.3), "RotationGeneral/reject", bad)
        rep.raises(ValueError, lambda: R.RotationGeneral(bad, 30, deg=True, inversion=True), "RotationGeneral/reject", bad)


def euler(rep):
    rng = rep.rng
    for i in rep.rounds(200):
        a, b, g = [rng.choice(TH + [rng.uniform(-8, 8)]) for _ in range(3)]
        rep.case((a, b, g))
        want = rodrigues(AX["Z"], a) @ rodrigues(AX["Y"], b) @ rodrigues(AX["Z"], g)
        both(rep, lambda *x, **kw: R.RotationEuler(*x, **kw), want, (a, b, g), "RotationEuler", abg=(a, b, g))


def constants(rep):
    e = lambda m, w, k: (rep.case(k), rep.expect(m.shape == (3, 3) and np.allclose(m, w, atol=1e-12), "constant", "%s = %r" % (k, m)))
    e(R.E, np.eye(3), "E")
    e(R.INVERSION, -np.eye(3), "INVERSION")
    for a, n in AX.items():
        for d in (30, 45, 60, 90, 180, 270):
            e(getattr(R, "R%s%d" % (a, d)), rodrigues(n, math.radians(d)), "R%s%d" % (a, d))
    for d in (60, 120, 180, 240, 300):
        e(getattr(R, "R111_%d" % d), rodrigues((1, 1, 1), math.radians(d)), "R111_%d" % d)
    for k, p in (("AP0", (0, 2, 1)), ("AP1", (2, 1, 0)), ("AP2", (1, 0, 2))):
        e(getattr(R, k), np.eye(3)[list(p)], k)


def run(rep):
    sections(rep, constants, named, general, euler)
    rep.section = "constants_after"
    constants(rep)
