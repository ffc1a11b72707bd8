"""C16: KPath."""
import math
import numpy as np
from conf.harness import sections
from HamiltonianPy.lattice import KPath
from fractions import Fraction


def check(rep, pts, num, loop, tag, default=False):
    n = len(pts)
    seq = [np.array(p, dtype=float) for p in pts] + ([np.array(pts[0], dtype=float)] if loop else [])
    lens = [math.sqrt(sum((float(b) - float(a)) ** 2 for a, b in zip(p, q))) for p, q in zip(seq, seq[1:])]
    m = min(lens)
    steps = []
    for L in lens:
        r = num * L / m
        k = math.floor(r + 1e-7)
        if math.floor(r + 1e-6) != math.floor(r + 1e-11) and abs(r - round(r)) > 1e-12 * r:
            return                      # too close to a rounding boundary to decide
        steps.append(k)
    keep = [np.array(p) for p in pts]
    inp = dict(pts=pts, num=num, loop=loop, tag=tag)
    rep.case((tag, n, num, loop, tuple(steps)))
    if default:
        k, idx = KPath(pts) if (num == 100 and loop) else KPath(pts, num, loop)
    else:
        k, idx = KPath(pts, min_num=num, loop=loop, return_indices=True)
    k2 = KPath(pts, min_num=num, loop=loop, return_indices=False)
    rep.expect(np.array_equal(k, k2), "indices/flag", "", **inp)
    rep.expect(len(idx) == len(seq), "indices/count", list(idx), **inp)
    want_idx = [0]
    for s in steps:
        want_idx.append(want_idx[-1] + s)
    if not rep.expect([int(x) for x in idx] == want_idx, "indices", list(map(int, idx)), want=want_idx, **inp):
        return
    if not rep.expect(k.shape == (want_idx[-1] + 1, len(seq[0])), "shape", k.shape, want=want_idx[-1] + 1, **inp):
        return
    for a, i in zip(seq, idx):
        rep.expect(np.allclose(k[i], a, atol=1e-12), "anchor", k[i], a=a, **inp)
    for s, (p, q) in enumerate(zip(seq, seq[1:])):
        w = p + (q - p) * (np.arange(steps[s]) / steps[s])[:, None]
        bad = np.nonzero(np.max(np.abs(k[want_idx[s]:want_idx[s + 1]] - w), axis=-1) > 1e-10 * (1 + np.max(np.abs(w))))[0]
        if not rep.expect(len(bad) == 0, "spacing", "point %s" % bad[:1], **inp):
            return
    rep.expect(min(steps) == num, "min_num", steps, **inp)
    rep.expect(all(np.array_equal(a, b) for a, b in zip(keep, pts)), "frame", "anchors modified", **inp)


def rand(rep):
    rng = rep.rng
    for r in rep.rounds(1500):
        dim = rng.choice([2, 3])
        n = rng.randint(2, 6)
        if rng.random() < 0.4:
            pts = [np.array([rng.randint(-3, 3) * 1.0 for _ in range(dim)]) for _ in range(n)]
        elif rng.random() < 0.3:
            pts = [np.array([rng.randint(-3, 3) for _ in range(dim)]) for _ in range(n)]
        elif rng.random() < 0.3:            # integer and real anchors side by side
            pts = [np.array([rng.randint(-3, 3) for _ in range(dim)]) if rng.random() < 0.6 else np.array([rng.uniform(-3, 3) for _ in range(dim)]) for _ in range(n)]
        else:
            pts = [np.array([rng.uniform(-3, 3) for _ in range(dim)]) for _ in range(n)]
        if rng.random() < 0.3 and n > 2:
            pts[-1] = pts[0].copy()         # closing segment of zero length when looped
        for loop in (True, False):
            seq = pts + [pts[0]] if loop else pts
            L = [np.linalg.norm(b - a) for a, b in zip(seq, seq[1:])]
            num = rng.choice([1, 2, 3, 7, 10, 50, 100])
            if min(L) < 1e-6:
                rep.case(("identical", loop, n))
                rep.raises(ValueError, lambda: KPath(pts, min_num=num, loop=loop), "identical", "identical anchors accepted", pts=pts, loop=loop)
            elif min(L) > 1e-2:
                check(rep, pts, num, loop, "rand", default=rng.random() < 0.2)
    for pts in ([np.array([0.0, 0.0])], ):
        rep.raises((AssertionError, ValueError), lambda: KPath(pts), "reject", "one point")
    rep.raises((AssertionError, ValueError), lambda: KPath([np.zeros(2), np.ones(2)], min_num=0), "reject", "min_num=0")


def special(rep):
    G, X, M = np.array([0.0, 0.0]), np.array([np.pi, 0.0]), np.array([np.pi, np.pi])
    K = np.array([4 * np.pi / 3, 0.0])
    for num in (1, 2, 5, 100):
        for loop in (True, False):
            check(rep, [G, X, M], num, loop, "square", default=True)
            check(rep, [G, X], num, loop, "line", default=True)
            check(rep, [G, K, np.array([np.pi, np.pi / math.sqrt(3)])], num, loop, "triangle")
            check(rep, [np.zeros(3), np.array([0, 0, 1.0]), np.array([0, 1.0, 1.0]), np.array([1.0, 1.0, 1.0])], num, loop, "cubic")
            check(rep, [G, X, G, M], num, loop, "revisit")
            check(rep, [G, 1e3 * X, 1e3 * X + M], num, loop, "long") if num < 3 else None
    rng = rep.rng
    for i in range(60):
        # just below, and at, a whole number of steps, on long segments
        num = rng.choice([3, 7, 11, 100])
        d = (int(10 ** rng.uniform(4, 5.3)) + rng.choice([0.0, 0.5, 0.99, 0.999, 0.9999])) / num
        ax = np.array(rng.choice([(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0)]))
        check(rep, [G, d * ax, d * ax + ax[::-1]], num, False, "far")
    # anchors shared by reference
    check(rep, [G, X, G], 4, False, "shared")
    rep.raises(ValueError, lambda: KPath([G, X, X, M]), "identical/inner", "")
    rep.raises(ValueError, lambda: KPath([G, G, M]), "identical/first", "")
    rep.raises(ValueError, lambda: KPath([G, M, M], loop=False), "identical/last", "")
    rep.raises(ValueError, lambda: KPath([G, M, G]), "identical/loop", "")
    check(rep, [G, M, G], 3, False, "backforth")
    for a in (G, X, M):
        rep.expect(True, "x", "")
    lens = 1.948638406576495
    check(rep, [np.array([0.0, 0.0]), np.array([lens, 0.0]), np.array([lens, 3.1])], 7, False, "ulp")
    check(rep, np.array([[0.0, 0.0], [1.0, 0.0], [1.0, 2.0]]), 5, True, "array")


def run(rep):
    sections(rep, special, rand)
