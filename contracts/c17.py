"""C17: rotation matrices (angles, axes: arbitrary reals)."""
from .base import *

M = "HamiltonianPy.rotation3d"
THR = Fraction(1e-10)


def det3(m):
    return sub(add(mul(m[0][0], m[1][1], m[2][2]), mul(m[0][1], m[1][2], m[2][0]), mul(m[0][2], m[1][0], m[2][1])),
               add(mul(m[0][2], m[1][1], m[2][0]), mul(m[0][1], m[1][0], m[2][2]), mul(m[0][0], m[1][2], m[2][1])))


def rodrigues(n, s, c):
    """c I + s [n]x + (1-c) n n^T for a unit vector n."""
    K = [[0, sub(0, n[2]), n[1]], [n[2], 0, sub(0, n[0])], [sub(0, n[1]), n[0], 0]]
    return [[add(c if i == j else 0, mul(s, K[i][j]), mul(sub(1, c), n[i], n[j])) for j in range(3)] for i in range(3)]


def mm(a, b):
    return [[add(*[mul(a[i][k], b[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]


def ent(h, R):
    h.ensure("the result is a 3x3 array", isinstance(R, np.ndarray) and R.shape == (3, 3))
    if not (isinstance(R, np.ndarray) and R.shape == (3, 3)):
        raise PathEnd()
    return [[R[i, j] for j in range(3)] for i in range(3)]


def check(h, R, want, inv):
    m = ent(h, R)
    if inv:
        want = [[sub(0, x) for x in r] for r in want]
    for i in range(3):
        for j in range(3):
            h.ensure("entry (%d,%d) of the rotation" % (i, j), eqz(m[i][j], want[i][j]))


def lemmas(h, want):
    """The specification itself is orthogonal with determinant one (so the checked matrix is too)."""
    for i in range(3):
        for j in range(i, 3):
            h.ensure("lemma: specified matrix is orthogonal (%d,%d)" % (i, j),
                     eqz(add(*[mul(want[i][k], want[j][k]) for k in range(3)]), 1 if i == j else 0))
    h.ensure("lemma: specified matrix has determinant one", eqz(det3(want), 1))


def options(h):
    deg = h.choose([None, False, True], "deg")
    inv = h.choose([None, False, True], "inv")
    kw = {}
    if deg is not None:
        kw["deg"] = deg
    if inv is not None:
        kw["inversion"] = inv
    return bool(deg), bool(inv), kw


def rad(h, t, deg):
    return arith("/", mul(t, h.rt.np.PI), 180) if deg else t


def sc(h, t):
    return h.rt.np.trig("sin", t), h.rt.np.trig("cos", t)


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=[M],
                        assumes=["floating-point arithmetic is exact real arithmetic", "sin^2 + cos^2 = 1, sin and cos exact at multiples of 30 and 45 degrees"], **kw))
    for a, n in (("X", (1, 0, 0)), ("Y", (0, 1, 0)), ("Z", (0, 0, 1))):
        def body(h, a=a, n=n):
            deg, inv, kw = options(h)
            t = h.real("theta")
            R = h.ensure_ok("no exception", h.outcome(h.get(M, "Rotation" + a), t, **kw))
            s, c = sc(h, rad(h, t, deg))
            want = rodrigues(n, s, c)
            check(h, R, want, inv)
            if not kw:
                lemmas(h, want)
        T("Rotation" + a, body, [M + ".Rotation" + a])

    def cart(h):
        deg, inv, kw = options(h)
        t = h.real("theta")
        x, y, z_ = h.real("ax"), h.real("ay"), h.real("az")
        d2 = add(sq(x), sq(y))
        r2 = add(d2, sq(z_))
        par = h.choose([True, False], "parallel")
        if par:
            h.requires(And(eqz(x, 0), eqz(y, 0), Or(ge(z_, THR), le(z_, -THR))))
        else:
            h.requires(ge(d2, THR * THR))
        kind = h.choose([tuple, list, "array"], "kind") if not kw else list
        ax = np.array([x, y, z_], dtype=object) if kind == "array" else kind((x, y, z_))
        R = h.ensure_ok("no exception", h.outcome(h.get(M, "RotationGeneral"), ax, t, **kw))
        r = h.rt.np.sqrt1(r2)
        if par:
            # r == |z|
            h.ensure("lemma: length of an axis along z", Or(eqz(r, z_), eqz(r, sub(0, z_))))
        h.ensure("lemma: the axis is not zero", gt(r, 0))
        n = [arith("/", x, r), arith("/", y, r), arith("/", z_, r)]
        s, c = sc(h, rad(h, t, deg))
        want = rodrigues(n, s, c)
        check(h, R, want, inv)
        if not kw and kind == tuple:
            lemmas(h, want)
            for i in range(3):
                h.ensure("lemma: the axis is fixed", eqz(add(*[mul(want[i][j], n[j]) for j in range(3)]), n[i]))
        for i, v in enumerate((x, y, z_)):
            h.ensure("the axis argument is unchanged", ax[i] is v)
    T("RotationGeneral about a Cartesian axis", cart, [M + ".RotationGeneral"], budget=200)

    def sph(h):
        deg, inv, kw = options(h)
        t, al, be = h.real("theta"), h.real("alpha"), h.real("beta")
        kind = h.choose([tuple, list], "kind") if not kw else list
        R = h.ensure_ok("no exception", h.outcome(h.get(M, "RotationGeneral"), kind((al, be)), t, **kw))
        s, c = sc(h, rad(h, t, deg))
        sa, ca = sc(h, rad(h, al, deg))
        sb, cb = sc(h, rad(h, be, deg))
        want = rodrigues([mul(sb, ca), mul(sb, sa), cb], s, c)
        check(h, R, want, inv)
        if not kw and kind is tuple:
            lemmas(h, want)
    T("RotationGeneral about a spherical axis", sph, [M + ".RotationGeneral"], budget=200)

    def euler(h):
        deg, inv, kw = options(h)
        al, be, ga = h.real("alpha"), h.real("beta"), h.real("gamma")
        R = h.ensure_ok("no exception", h.outcome(h.get(M, "RotationEuler"), al, be, ga, **kw))
        z_, y = (0, 0, 1), (0, 1, 0)
        want = mm(mm(rodrigues(z_, *sc(h, rad(h, al, deg))), rodrigues(y, *sc(h, rad(h, be, deg)))), rodrigues(z_, *sc(h, rad(h, ga, deg))))
        check(h, R, want, inv)
        if not kw:
            lemmas(h, want)
    T("RotationEuler", euler, [M + ".RotationEuler"], budget=200)

    def reject(h):
        kind = h.choose([tuple, list, "array"], "kind")
        n = h.choose([0, 1, 3, 4, 5], "len")
        ax = [h.real("a%d" % i) for i in range(n)]
        if n == 3:
            h.requires(And([eqz(v, 0) for v in ax]))
        a = np.array(ax, dtype=object) if kind == "array" else kind(ax)
        deg, inv, kw = options(h)
        o = h.outcome(h.get(M, "RotationGeneral"), a, h.real("theta"), **kw)
        h.ensure_raises("a zero axis or an axis of wrong length raises ValueError", o, "ValueError")
    T("RotationGeneral rejects bad axes", reject, [M + ".RotationGeneral"])

    def consts(h):
        pi = h.rt.np.PI
        def same(name, want):
            R = h.get(M, name)
            m = ent(h, R)
            h.ensure("constant %s" % name, And([eqz(m[i][j], want[i][j]) for i in range(3) for j in range(3)]))
        I = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
        same("E", I)
        same("INVERSION", [[-x for x in r] for r in I])
        for a, n in (("X", (1, 0, 0)), ("Y", (0, 1, 0)), ("Z", (0, 0, 1))):
            for d in (30, 45, 60, 90, 180, 270):
                same("R%s%d" % (a, d), rodrigues(n, *sc(h, mul(pi, Fraction(d, 180)))))
        r3 = h.rt.np.sqrt1(3)
        n = [arith("/", 1, r3)] * 3
        for d in (60, 120, 180, 240, 300):
            same("R111_%d" % d, rodrigues(n, *sc(h, mul(pi, Fraction(d, 180)))))
        for k, p in (("AP0", (0, 2, 1)), ("AP1", (2, 1, 0)), ("AP2", (1, 0, 2))):
            same(k, [I[q] for q in p])
    T("named rotation constants", consts, [M], budget=200)
    return out
