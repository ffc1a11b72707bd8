"""C18: lines and convex polygons."""
import math
import numpy as np
from conf.harness import sections
from HamiltonianPy.line2d import Line2D, Location as LL
from HamiltonianPy.polygon import Polygon, Location as PL

TOL = 1e-10


def lines(rep):
    rng = rep.rng
    for i in rep.rounds(3000):
        kind = rng.choice(["h", "v", "g", "g", "steep", "int"])
        x0, y0 = rng.uniform(-3, 3), rng.uniform(-3, 3)
        if kind == "h":
            p0, p1 = (x0, y0), (x0 + rng.choice([-1, 1]) * rng.uniform(0.1, 3), y0)
        elif kind == "v":
            p0, p1 = (x0, y0), (x0, y0 + rng.choice([-1, 1]) * rng.uniform(0.1, 3))
        elif kind == "steep":
            p0, p1 = (x0, y0), (x0 + rng.choice([-1, 1]) * rng.choice([1e-4, 1e-2]), y0 + rng.choice([-1, 1]) * 2)
        elif kind == "int":
            p0 = (rng.randint(-3, 3), rng.randint(-3, 3))
            p1 = (p0[0] + rng.randint(-3, 3), p0[1] + rng.choice([-2, -1, 1, 3]))
        else:
            p0, p1 = (x0, y0), (x0 + rng.uniform(-3, 3), y0 + rng.uniform(-3, 3))
        dx, dy = p1[0] - p0[0], p1[1] - p0[1]
        if max(abs(dx), abs(dy)) < 1e-3 or 0 < abs(dx) < 1e-6 or 0 < abs(dy) < 1e-6:
            continue
        mk = rng.choice([list, tuple, np.array])
        a0, a1 = mk(p0), mk(p1)
        ln = Line2D(a0, a1)
        inp = dict(p0=p0, p1=p1)
        rep.case((kind, p0, p1))
        vert, hor = dx == 0, dy == 0
        rep.expect(ln.IsVertical is vert and ln.IsHorizontal is hor, "flags", (ln.IsVertical, ln.IsHorizontal), **inp)
        slope = None if vert else dy / dx
        scale = 1 + abs(slope or 0)
        for _ in range(4):
            t = rng.uniform(-3, 4)
            bx, by = p0[0] + t * dx, p0[1] + t * dy
            off = rng.choice([0, 1e-3, -1e-3, 0.5, -0.5, 3, -3, 1e-6, -1e-6])
            q = (bx + off, by) if vert else (bx, (p0[1] + slope * (bx - p0[0])) + off)
            if hor and not vert:
                q = (bx, p0[1] + off)
            if off == 0 and abs(slope or 0) > 1e4:
                continue
            want = LL.ON if off == 0 else ((LL.LEFT if off < 0 else LL.RIGHT) if vert else (LL.BELOW if off < 0 else LL.ABOVE))
            got = ln.LocationRelation(mk(q), tol=1e-8)
            rep.expect(got is want, "location", got, want=want, q=q, off=off, **inp)
            if off == 0 or abs(off) >= 1e-6:
                got = ln.LocationRelation(mk(q)) if abs(slope or 0) < 100 else want
                rep.expect(got is want, "location/tol", got, want=want, q=q, off=off, **inp)
        ratios = [rng.uniform(-2, 3) for _ in range(3)] + [rng.choice([-1, 1]) * 10 ** rng.uniform(0, 3)] + [0, 1, 0.5]
        pts = ln.PointsFactory(ratios)
        w = np.array([[p0[0] + r * dx, p0[1] + r * dy] for r in ratios])
        rep.expect(pts.shape == (7, 2) and np.allclose(pts, w, rtol=1e-11, atol=1e-12), "points", pts, want=w, **inp)
        d = ln.PointsFactory()
        w = np.array([[p0[0] + r * dx, p0[1] + r * dy] for r in np.arange(101) / 100])
        rep.expect(d.shape == (101, 2) and np.allclose(d, w, atol=1e-12), "points/default", "", **inp)
        known = rng.uniform(-4, 4)
        for which, bad in (("x", vert), ("y", hor)):
            for f in (ln.Coordinate, ln):
                if bad:
                    rep.raises(RuntimeError, lambda: f(known, which), "coordinate/unsolvable", which, **inp)
                else:
                    x, y = f(known, which)
                    rep.expect((x if which == "x" else y) == known, "coordinate/known", (x, y), **inp)
                    cross = (x - p0[0]) * dy - (y - p0[1]) * dx
                    rep.expect(abs(cross) < 1e-9 * (1 + abs(x) + abs(y)) * math.hypot(dx, dy), "coordinate", (x, y), which=which, known=known, **inp)
        if not vert:
            rep.expect(ln(known) == ln.Coordinate(known, "x"), "coordinate/default", "", **inp)
        rep.expect(tuple(a0) == tuple(p0) and tuple(a1) == tuple(p1), "frame", "", **inp)
    for p in ((0, 0), (1.5, -2.0)):
        for e in (0, 1e-12, -1e-11):
            rep.raises(ValueError, lambda: Line2D(p, (p[0] + e, p[1] - e)), "coincident", p, e=e)
    rep.raises((AssertionError, ValueError), lambda: Line2D((0, 0, 0), (1, 1, 1)), "reject", "3D")
    # tolerances given by the caller
    ln = Line2D((0, 0), (1, 1))
    rep.expect(ln.LocationRelation((0.5, 0.505), tol=0.01) is LL.ON and ln.LocationRelation((0.5, 0.505)) is LL.ABOVE, "tol", "")
    ln = Line2D((0, 0), (0, 1))
    rep.expect(ln.LocationRelation((0.005, 9), tol=0.01) is LL.ON and ln.LocationRelation((0.005, 0.5)) is LL.RIGHT, "tol/v", "")
    ln = Line2D((0, 0), (1, 0))
    rep.expect(ln.LocationRelation((9, -0.005), tol=0.01) is LL.ON and ln.LocationRelation((9, -0.005)) is LL.BELOW, "tol/h", "")


def nearly(rep):
    """Lines that are almost, but not, vertical or horizontal; lines that are to the tolerance."""
    rng = rep.rng
    for i in rep.rounds(600):
        x0, y0 = rng.choice([0.0, 1.0, -0.75, rng.uniform(-3, 3)]), rng.choice([0.0, -2.0, rng.uniform(-3, 3)])
        small = rng.choice([3e-9, 3e-8, 1e-7, 1e-6, 1e-4]) * rng.choice([-1, 1])
        big = rng.choice([2.0, 0.5]) * rng.choice([-1, 1])
        steep = rng.random() < 0.6
        p0 = (x0, y0)
        p1 = (x0 + small, y0 + big) if steep else (x0 + big, y0 + small)
        dx, dy = p1[0] - p0[0], p1[1] - p0[1]
        ln = Line2D(p0, p1)
        inp = dict(p0=p0, p1=p1)
        rep.case((steep, p0, p1))
        rep.expect(ln.IsVertical is False and ln.IsHorizontal is False, "nearly/flags", (ln.IsVertical, ln.IsHorizontal), **inp)
        for _ in range(4):
            t = rng.choice([0, 0.5, 1, -1, 3])
            x = x0 + t * dx
            y = y0 + dy / dx * (x - x0)
            off = rng.choice([0.01, -0.01, 0.5, -0.5, 3, -3])
            if abs(off) < 1e-6 * abs(dy / dx) * 1e-6:
                continue
            got = ln.LocationRelation((x, y + off))
            rep.expect(got is (LL.BELOW if off < 0 else LL.ABOVE), "nearly/location", got, off=off, t=t, **inp)
            if steep:
                # beside the line by far more than the line is wide
                s = rng.choice([-1, 1]) * rng.choice([0.01, 1.0])
                got = ln.LocationRelation((x + s, y))
                rep.expect(got is (LL.BELOW if s * dy / dx > 0 else LL.ABOVE), "nearly/beside", got, s=s, t=t, **inp)
        for q in (p0, p1):
            got = ln.LocationRelation(q, tol=1e-6)
            rep.expect(got is LL.ON, "nearly/on", got, q=q, **inp)
        y = ln(x0 + 0.5 * dx)[1]
        rep.expect(abs(y - (y0 + 0.5 * dy)) < 1e-5, "nearly/coordinate", y, **inp)
        x = ln(y0 + 0.5 * dy, "y")[0]
        rep.expect(abs(x - (x0 + 0.5 * dx)) < 1e-5, "nearly/coordinate", x, **inp)
        # within the tolerance of vertical or horizontal, and tolerances given by the caller
        e = rng.choice([0.0, 4e-11, -4e-11])
        a, b = Line2D((0.0, y0), (e, y0 + big)), Line2D((x0, 0.0), (x0 + big, e))
        rep.expect(a.IsVertical is True and a.IsHorizontal is False and b.IsVertical is False and b.IsHorizontal is True, "nearly/within", "", e=e, **inp)
        t = rng.choice([1e-3, 1e-5])
        for f, w in ((0.5, True), (2.0, False)):
            a, b = Line2D((0.0, y0), (f * t, y0 + big), tol=t), Line2D((x0, 0.0), (x0 + big, f * t), tol=t)
            rep.expect(a.IsVertical is w and b.IsHorizontal is w and a.IsHorizontal is False and b.IsVertical is False, "nearly/tol", "", t=t, f=f, **inp)
            if w:
                rep.raises(ValueError, lambda: Line2D((x0, y0), (x0 + f * t, y0 - f * t), tol=t), "nearly/coincident", "", t=t, f=f)


def rand_convex(rng):
    mode = rng.random()
    if mode < 0.35:
        sets = [[(0, 0), (1, 0), (1, 1), (0, 1)], [(0, 0), (2, 0), (0, 1)], [(0, 0), (2, 0), (3, 1), (2, 2), (0, 2), (-1, 1)],
                [(1, 0), (0, 1), (-1, 0), (0, -1)], [(0, 0), (4, 1), (5, 4), (1, 3)], [(0, 0), (1, 0), (1, 5), (0, 5)],
                [(0, 0), (3, 0), (3, 2), (1, 3), (0, 2)]]
        v = [tuple(map(float, p)) for p in rng.choice(sets)]
    else:
        n = rng.randint(3, 8)
        while True:
            ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
            gaps = [b - a for a, b in zip(ang, ang[1:])] + [2 * math.pi - ang[-1] + ang[0]]
            if min(gaps) > 0.25 and max(gaps) < 3.0:
                break
        rx, ry = rng.uniform(0.5, 3), rng.uniform(0.5, 3)
        v = [(rx * math.cos(a), ry * math.sin(a)) for a in ang]
    if rng.random() < 0.5:
        v = v[::-1]
    k = rng.randrange(len(v))
    v = v[k:] + v[:k]
    ox, oy = rng.choice([(0, 0), (rng.uniform(-5, 5), rng.uniform(-5, 5))])
    return [(x + ox, y + oy) for x, y in v]


def inside_point(rng, v):
    w = [rng.uniform(0.1, 1) for _ in v]
    s = sum(w)
    return (sum(a * x for a, (x, _) in zip(w, v)) / s, sum(a * y for a, (_, y) in zip(w, v)) / s)


def classify(v, q):
    """margin-aware classification: signed distances to the edges."""
    area = sum(a[0] * b[1] - b[0] * a[1] for a, b in zip(v, v[1:] + v[:1]))
    sgn = 1 if area > 0 else -1
    return min(sgn * ((b[0] - a[0]) * (q[1] - a[1]) - (b[1] - a[1]) * (q[0] - a[0])) / math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(v, v[1:] + v[:1]))


def polygons(rep):
    rng = rep.rng
    for i in rep.rounds(1500):
        v = rand_convex(rng)
        mk = rng.choice([list, np.array])
        vv = mk([list(p) for p in v])
        pg = Polygon(vv)
        ref = inside_point(rng, v)
        inp = dict(v=v, ref=ref)
        rep.case(tuple(v))
        rep.expect(np.array_equal(pg.vertices, np.array(v)) and pg.vertices_num == len(v), "vertices", "", **inp)
        tl = 1e-9
        for p in v:
            got = pg.LocationRelation(rng.choice([list, tuple, np.array])(p), ref)
            rep.expect(got is PL.CORNER, "corner", got, q=p, **inp)
        # tolerances given by the caller: vertices to that tolerance and not to the default one, and the reverse
        ct = rng.choice([1e-3, 1e-5, 1e-7])
        for p in v:
            s = (rng.choice([-0.4, 0.4]) * ct, rng.choice([-0.4, 0.4]) * ct)
            got = pg.LocationRelation((p[0] + s[0], p[1] + s[1]), ref, tol=ct)
            rep.expect(got is PL.CORNER, "corner/tol", got, q=p, s=s, tol=ct, **inp)
            got = pg.LocationRelation((p[0] + s[0], p[1] + s[1]), ref)
            rep.expect(got is not PL.CORNER, "corner/not", got, q=p, s=s, **inp)
        n = len(v)
        for k in range(n):
            a, b = v[k], v[(k + 1) % n]
            t = rng.choice([0.5, rng.uniform(0.02, 0.98), 0.01, 0.99])
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            got = pg.LocationRelation(q, ref, tol=tl)
            rep.expect(got is PL.BOUNDARY, "boundary", got, q=q, **inp)
            # off the edge by less than the tolerance
            nx, ny = b[1] - a[1], a[0] - b[0]
            hyp = math.hypot(nx, ny)
            if abs(nx) < 2 * abs(ny) or nx == 0 or ny == 0:
                e = rng.choice([-1, 1]) * rng.choice([1e-2, 0.3]) * tl / hyp
                q2 = (q[0] + e * nx, q[1] + e * ny)
                got = pg.LocationRelation(q2, ref, tol=tl)
                rep.expect(got is PL.BOUNDARY, "boundary/within", got, q=q2, **inp)
            # on the edge's line but beyond the edge
            t = rng.choice([-0.5, 1.5, -3, 4, 1.05, -0.02])
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            got = pg.LocationRelation(q, ref, tol=tl)
            rep.expect(got is PL.OUTSIDE, "beyond", got, q=q, **inp)
        for _ in range(6):
            q = inside_point(rng, v)
            if classify(v, q) > 1e-4:
                got = pg.LocationRelation(q, ref)
                rep.expect(got is PL.INSIDE, "inside", got, q=q, **inp)
            q = (ref[0] + rng.uniform(-4, 4), ref[1] + rng.uniform(-4, 4))
            m = classify(v, q)
            if abs(m) > 1e-4:
                got = pg.LocationRelation(q, ref)
                rep.expect(got is (PL.INSIDE if m > 0 else PL.OUTSIDE), "random", got, q=q, margin=m, **inp)
        rep.expect(np.array_equal(pg.vertices, np.array(v)), "vertices/after", "", **inp)
    for i in range(40):
        # edges that are vertical (horizontal) to the tolerance of the caller only
        ct = rng.choice([1e-3, 1e-5, 1e-7])
        e, w, t = 0.5 * ct * rng.choice([-1, 1]), rng.choice([1.0, 2.5]), rng.uniform(0.1, 0.9)
        side = rng.choice([0, 1])
        swap = rng.choice([lambda p: p, lambda p: p[::-1]])
        v = [swap(p) for p in ((0.0, 0.0), (w, 0.0), (w + e, 2.0), (e, 2.0))]
        q = swap((side * w + t * e + rng.choice([-0.3, 0.3]) * ct, 2 * t))
        got = Polygon(v).LocationRelation(q, swap((w / 2, 1.0)), tol=ct)
        rep.case((i, ct, e))
        rep.expect(got is PL.BOUNDARY, "boundary/caller's tolerance", got, v=v, q=q, tol=ct)
    rep.raises(ValueError, lambda: Polygon([(0, 0), (1, 0), (0, 0)]), "duplicate", "")
    rep.raises(ValueError, lambda: Polygon([(0, 0), (1, 0), (1, 1), (0, 1), (1e-12, 1)]), "duplicate", "")
    rep.raises((AssertionError, ValueError), lambda: Polygon([(0, 0), (1, 0)]), "reject", "two vertices")
    rep.raises((AssertionError, ValueError), lambda: Polygon([(0, 0, 0), (1, 0, 0), (1, 1, 0)]), "reject", "3D")


def run(rep):
    sections(rep, lines, nearly, polygons)
