"""C11: bonds."""
from .base import *
from pyvc.sym import trunc, _POWER
from pyvc.npmodel import ATAN2

M = "HamiltonianPy.bond"
FP = "floating-point arithmetic is exact real arithmetic; int() truncates"


def configure(h, mod=M):
    """Default precision, or any precision p >= 0 chosen by the user; returns the zoom factor."""
    if h.choose([True, False], "cfg"):
        return 10000
    p = h.int("precision")
    h.requires(p.e >= 0)
    h.call(h.get(mod, "set_float_point_precision"), p)
    zf = _POWER(z3.IntVal(10), p.e)
    return S(zf)


def cell(zoom, x):
    return trunc(S(zr(mul(zoom, x))))


def same_point(zoom, p, q):
    return And([eqz(cell(zoom, a), cell(zoom, b)) for a, b in zip(p, q)])


def points(h, dim, names):
    kind = h.choose([tuple, list, "array"], "kind")
    out = []
    for n in names:
        v = [h.real(n) for _ in range(dim)]
        out.append((v, np.array(v, dtype=object) if kind == "array" else kind(v)))
    return out


def arr_is(h, label, a, want):
    ok = isinstance(a, np.ndarray) and a.shape == (len(want),)
    h.ensure(label, And([eqz(a[i], want[i]) for i in range(len(want))]) if ok else False)


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [M + "." + f for f in functions], modules=[M], assumes=[FP], **kw))

    def geometry(h):
        dim = h.choose([1, 2, 3], "dim")
        (v0, p0), (v1, p1) = points(h, dim, "pq")
        B = h.get(M, "Bond")
        d = h.choose([None, True, False], "dir")
        b = h.ensure_ok("constructor", h.outcome(B, p0, p1, **({} if d is None else {"directional": d})))
        d = d is not False
        early = h.choose([None, "rounded", "undirected"], "asked before")
        if early == "rounded":
            # answers may not depend on what was asked of the bond before
            n0 = h.int("earlier ndigits")
            h.meth(b, "getLength", ndigits=n0)
            if d:
                h.meth(b, "getDisplace", ndigits=n0)
        elif early:
            h.outcome(lambda: h.rt.eq(b, h.call(B, p1, p0, directional=not d)))
            h.call(h.rt.builtins["hash"], b)
            if d:
                h.meth(h.meth(b, "flip"), "getLength")
        e = h.attr(b, "endpoints")
        h.ensure("endpoints is a pair", isinstance(e, (tuple, list)) and len(e) == 2)
        arr_is(h, "endpoints[0] is p0", e[0], v0)
        arr_is(h, "endpoints[1] is p1", e[1], v1)
        h.ensure("directional flag", h.attr(b, "directional") is d)
        dr = [sub(y, x) for x, y in zip(v0, v1)]
        d2 = add(*[sq(x) for x in dr])
        L = h.meth(b, "getLength")
        h.ensure("length is the Euclidean distance", And(ge(L, 0), eqz(sq(L), d2)))
        nd = h.int("ndigits")
        h.ensure("rounded length", h.eq(h.meth(b, "getLength", ndigits=nd), h.rt.np.around(h.rt, L, nd)))
        if not d:
            for q in ("getDisplace", "getAzimuth", "flip"):
                h.ensure_raises("%s of a non-directional bond" % q, h.outcome(lambda: h.meth(b, q)), "NotImplementedError")
            h.ensure_raises("oppositeTo of a non-directional bond", h.outcome(lambda: h.meth(b, "oppositeTo", b)), "NotImplementedError")
            return
        arr_is(h, "displacement is p1 - p0", h.meth(b, "getDisplace"), dr)
        arr_is(h, "rounded displacement", h.meth(b, "getDisplace", ndigits=nd), [h.rt.np.around(h.rt, x, nd) for x in dr])
        f = h.meth(b, "flip")
        fe = h.attr(f, "endpoints")
        arr_is(h, "flip: first endpoint", fe[0], v1)
        arr_is(h, "flip: second endpoint", fe[1], v0)
        h.ensure("flip is directional", h.attr(f, "directional") is True)
        e = h.attr(b, "endpoints")
        arr_is(h, "queries leave the bond unchanged (p0)", e[0], v0)
        arr_is(h, "queries leave the bond unchanged (p1)", e[1], v1)
    T("construction, endpoints, length, displacement, flip", geometry,
      ["Bond.__init__", "Bond.endpoints", "Bond.directional", "Bond.getLength", "Bond.getDisplace", "Bond.flip"])

    def azimuth(h):
        dim = h.choose([1, 2, 3], "dim")
        (v0, p0), (v1, p1) = points(h, dim, "pq")
        b = h.call(h.get(M, "Bond"), p0, p1)
        dr = [sub(y, x) for x, y in zip(v0, v1)]
        pi = h.rt.np.PI
        A2 = lambda y, x: S(ATAN2(zr(y), zr(x)))
        if dim == 1:
            want = [ite(ge(dr[0], 0), 0, sub(0, pi))]
        elif dim == 2:
            want = [A2(dr[1], dr[0])]
        else:
            want = [A2(h.rt.np.sqrt1(add(sq(dr[0]), sq(dr[1]))), dr[2]), A2(dr[1], dr[0])]
        early = h.choose([None, {"radian": True}, {"ndigits": 2}, {"radian": True, "ndigits": 2}], "asked before")
        if early is not None:
            h.outcome(lambda: h.meth(b, "getAzimuth", **early))
        rad = h.choose([None, False, True], "radian")
        kw = {} if rad is None else {"radian": rad}
        nd = h.choose([None, h.int("ndigits")], "nd")
        if nd is not None:
            kw["ndigits"] = nd
        if not rad:
            want = [arith("/", mul(180, w), pi) for w in want]
        got = h.ensure_ok("azimuth", h.outcome(lambda: h.meth(b, "getAzimuth", **kw)))
        if nd is not None:
            # the unrounded call has been checked; the rounded one is its rounding
            raw = h.meth(b, "getAzimuth", **{k: v for k, v in kw.items() if k != "ndigits"})
            want = [h.rt.np.around(h.rt, x, nd) for x in (raw if dim == 3 else [raw])]
        if dim == 3:
            arr_is(h, "polar angles (theta, phi) of the displacement", got, want)
        else:
            h.ensure("polar angle of the displacement", is_num(got) and eqz(got, want[0]))
    T("azimuth", azimuth, ["Bond.getAzimuth"])

    def identity(h):
        zoom = configure(h)
        dim = h.choose([1, 2, 3], "dim")
        (a0, p0), (a1, p1), (b0, q0), (b1, q1) = points(h, dim, "pqrs")
        B = h.get(M, "Bond")
        da, db = h.choose([(True, True), (True, False), (False, True), (False, False)], "dirs")
        a = h.call(B, p0, p1, directional=da)
        b = h.call(B, q0, q1, directional=db)
        direct = And(same_point(zoom, a0, b0), same_point(zoom, a1, b1))
        cross = And(same_point(zoom, a0, b1), same_point(zoom, a1, b0))
        if da and db:
            want = direct
        elif not da and not db:
            want = Or(direct, cross)
        else:
            want = z3.BoolVal(False)
        r = formula(h.rt.eq(a, b))
        h.ensure("a == b exactly for the same endpoints and kind", r == want)
        h.ensure("!= is the negation of ==", formula(h.rt.rich("!=", a, b)) == Not(want))
        ha, hb = h.rt.builtins["hash"], None
        h.ensure("equal bonds have equal hashes", Implies(want, h.eq(h.call(ha, a), h.call(ha, b))))
        if da and db:
            o = h.meth(a, "oppositeTo", b)
            h.ensure("oppositeTo holds exactly for the flipped bond", formula(o) == cross)
    T("equality, hash, oppositeTo at every configured precision", identity,
      ["set_float_point_precision", "Bond.__init__", "Bond.__eq__", "Bond.__ne__", "Bond.__hash__", "Bond.oppositeTo", "Bond.flip"], budget=240, max_paths=2000)

    def dims(h):
        da, db = h.choose([(1, 2), (2, 1), (2, 3), (3, 1)], "dims")
        B = h.get(M, "Bond")
        a = h.call(B, tuple(h.real("a") for _ in range(da)), tuple(h.real("b") for _ in range(da)))
        b = h.call(B, tuple(h.real("c") for _ in range(db)), tuple(h.real("d") for _ in range(db)))
        h.ensure("bonds of different dimension differ", Not(formula(h.rt.eq(a, b))))
        o = h.outcome(B, tuple(h.real("a") for _ in range(da)), tuple(h.real("b") for _ in range(db)))
        h.ensure("endpoints of different dimension are rejected", o[0] == "raise")
        h.ensure_raises("oppositeTo needs a bond", h.outcome(lambda: h.meth(a, "oppositeTo", 5)), "TypeError")
    T("mixed dimensions", dims, ["Bond.__init__", "Bond.__eq__", "Bond.oppositeTo"])
    return out
