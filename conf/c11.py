"""C11: bonds."""
import itertools
import math
import numpy as np
from conf.harness import sections
from HamiltonianPy.bond import Bond
import HamiltonianPy.bond as BM


def azimuth(d):
    """Documented polar angles, in radians."""
    if len(d) == 1:
        return 0.0 if d[0] >= 0 else -math.pi
    if len(d) == 2:
        return math.atan2(d[1], d[0])
    x, y, z = d
    return np.array([math.atan2(math.sqrt(x * x + y * y), z), math.atan2(y, x)])


def digits(x, nd):
    """Nothing beyond nd digits is left."""
    y = np.asarray(x, dtype=float) * 10 ** nd
    return bool(np.all(np.abs(y - np.rint(y)) < 1e-6))


def rp(rng, dim):
    return [rng.choice([rng.randint(-3, 3), round(rng.uniform(-3, 3), 2) + 0.00005 * rng.choice([1, -1]), 0.0]) for _ in range(dim)]


def geometry(rep):
    rng = rep.rng
    for i in rep.rounds(2500):
        dim = rng.randint(1, 3)
        p0, p1 = rp(rng, dim), rp(rng, dim)
        if rng.random() < 0.2:
            k = rng.randrange(dim)
            p1 = list(p0)
            p1[k] = p0[k] + rng.choice([-1, 1, 0.5])
        if rng.random() < 0.3:
            p0, p1 = np.array(p0), np.array(p1, dtype=float)
        d = np.array([float(b) - float(a) for a, b in zip(p0, p1)])
        for directional in (True, False):
            b = Bond(p0, p1, directional=directional)
            inp = dict(p0=p0, p1=p1, directional=directional)
            rep.case((tuple(map(float, p0)), tuple(map(float, p1)), directional))
            if rng.random() < 0.4:                       # what was asked before does not matter
                for nm in rng.sample(["getLength", "getDisplace", "getAzimuth"], 3):
                    if directional or nm == "getLength":
                        getattr(b, nm)(**rng.choice([{"ndigits": 2}, {}, {"ndigits": 0}] + ([{"radian": True}] if nm == "getAzimuth" else [])))
            e = b.endpoints
            rep.expect(len(e) == 2 and np.array_equal(e[0], p0) and np.array_equal(e[1], p1), "endpoints", e, **inp)
            rep.expect(b.directional is directional, "directional", "", **inp)
            L = math.sqrt(sum(float(x) ** 2 for x in d))
            rep.expect(abs(b.getLength() - L) < 1e-12 * (1 + L), "length", b.getLength(), **inp)
            nd = rng.randint(0, 5)
            rep.expect(abs(b.getLength(ndigits=nd) - L) <= 0.5000001 * 10 ** -nd, "length/ndigits", "", **inp)
            rep.expect(digits(b.getLength(ndigits=nd), nd), "length/rounded", "", nd=nd, **inp)
            if directional:
                rep.expect(np.allclose(b.getDisplace(), d, atol=1e-13), "displace", b.getDisplace(), **inp)
                rep.expect(np.allclose(b.getDisplace(ndigits=nd), d, atol=0.5000001 * 10 ** -nd), "displace/ndigits", "", **inp)
                az = azimuth(d)
                rep.expect(np.allclose(b.getAzimuth(radian=True), az, atol=1e-12), "azimuth/radian", b.getAzimuth(radian=True), want=az, **inp)
                rep.expect(np.allclose(b.getAzimuth(), np.degrees(az), atol=1e-10), "azimuth/degree", b.getAzimuth(), want=np.degrees(az), **inp)
                rep.expect(np.shape(b.getAzimuth()) == ((2,) if dim == 3 else ()), "azimuth/shape", "", **inp)
                rep.expect(np.allclose(b.getAzimuth(ndigits=nd), np.degrees(az), atol=0.5000001 * 10 ** -nd), "azimuth/ndigits", "", **inp)
                rep.expect(digits(b.getDisplace(ndigits=nd), nd) and digits(b.getAzimuth(ndigits=nd), nd), "ndigits/rounded", "", nd=nd, **inp)
                f = b.flip()
                rep.expect(isinstance(f, Bond) and np.array_equal(f.endpoints[0], p1) and np.array_equal(f.endpoints[1], p0) and f.directional is True, "flip", f, **inp)
                rep.expect(f.flip() == b and b.oppositeTo(f) is True and f.oppositeTo(b) is True, "opposite", "", **inp)
                same = all(abs(x) == 0 for x in d)
                if max(abs(d)) > 1e-3:
                    rep.expect(b.oppositeTo(b) is False, "opposite/self", "", **inp)
                elif same:
                    rep.expect(b.oppositeTo(b) is True, "opposite/self", "", **inp)
                rep.raises(TypeError, lambda: b.oppositeTo(3), "opposite/type", "", **inp)
            else:
                for nm, fn in (("displace", b.getDisplace), ("azimuth", b.getAzimuth), ("flip", b.flip), ("opposite", lambda: b.oppositeTo(b))):
                    rep.raises(NotImplementedError, fn, "undirected/" + nm, "", **inp)
            rep.expect(np.array_equal(b.endpoints[0], p0) and np.array_equal(b.endpoints[1], p1), "endpoints/after", "", **inp)


def cells(rng, dim, unit):
    g = tuple(rng.choice([0, 1, -1, 2, -2, 10000, -10000, 5000]) for _ in range(dim))
    def real():
        return [(x + (rng.choice([0.2, 0.5, 0.8]) * (1 if x >= 0 else -1))) * unit for x in g]
    return g, real


def identity(rep, unit=1e-4, n=1500, tag=""):
    rng = rep.rng
    for i in rep.rounds(n):
        dim = rng.randint(1, 3)
        pts = [cells(rng, dim, unit) for _ in range(2)]
        bonds = []
        for (a, b) in itertools.product(range(2), repeat=2):
            for directional in (True, False):
                for _ in range(2):
                    mk = rng.choice([list, tuple, np.array])
                    bonds.append((Bond(mk(pts[a][1]()), mk(pts[b][1]()), directional=directional), pts[a][0], pts[b][0], directional))
        for (x, xa, xb, xd), (y, ya, yb, yd) in itertools.product(bonds, repeat=2):
            want = xd == yd and ((xa == ya and xb == yb) or (not xd and xa == yb and xb == ya))
            rep.case((xa, xb, xd, ya, yb, yd))
            rep.expect((x == y) is want, "eq" + tag, x == y, x=x, y=y)
            rep.expect((x != y) is (not want), "ne" + tag, x != y, x=x, y=y)
            if want:
                rep.expect(hash(x) == hash(y), "hash" + tag, "", x=x, y=y)
            if xd:
                rep.expect(x.oppositeTo(y) is (yd and xa == yb and xb == ya), "oppositeTo" + tag, "", x=x, y=y)
    rep.expect(not (Bond([0], [1]) == 3) and Bond([0], [1]) != "a", "foreign", "")


def precision(rep):
    try:
        for p in (2, 6):
            BM.set_float_point_precision(p)
            identity(rep, 10.0 ** -p, 80, "/precision%d" % p)
    finally:
        BM.set_float_point_precision(4)


def run(rep):
    for bad in (([0, 0], [0]), ([0] * 4, [0] * 4), ([[0]], [[1]])):
        rep.raises((AssertionError, ValueError), lambda: Bond(*bad), "reject", bad)
    sections(rep, geometry, identity, precision)
