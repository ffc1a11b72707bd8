"""C18: lines and convex polygons."""
from .base import *
from .c11 import FP

L2 = "HamiltonianPy.line2d"
PG = "HamiltonianPy.polygon"
TOL = Fraction(1e-10)


def absz(x):
    return ite(ge(x, 0), x, sub(0, x))


def pt(h, n, kind=None):
    v = [h.real(n + "x"), h.real(n + "y")]
    kind = kind or h.choose([tuple, "array"], "kind")
    return v, (np.array(v, dtype=object) if kind == "array" else kind(v))


def member(h, mod, name):
    return h.attr(h.get(mod, "Location"), name)


def tasks():
    out = []

    def T(name, fn, functions, mods=(L2,), **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=list(mods), assumes=[FP], **kw))

    def setup(h, tol, given=False):
        (v0, p0), (v1, p1) = pt(h, "a"), pt(h, "b", tuple)
        dx, dy = sub(v1[0], v0[0]), sub(v1[1], v0[1])
        h.requires(Or(gt(absz(dx), tol), gt(absz(dy), tol)))
        line = h.ensure_ok("two distinct points give a line", h.outcome(h.get(L2, "Line2D"), p0, p1, **({"tol": tol} if given else {})))
        return v0, v1, dx, dy, line

    def relation(h):
        ctol = TOL
        if h.choose([False, True], "ctol"):
            ctol = h.real("ctol")
            h.requires(gt(ctol, 0))
        v0, v1, dx, dy, line = setup(h, ctol, ctol is not TOL)
        user_tol = h.choose([False, True], "tol")
        kw, tol = {}, TOL
        if user_tol:
            tol = h.real("tol")
            h.requires(gt(tol, 0))
            kw = {"tol": tol}
        v, p = pt(h, "q")
        r = h.meth(line, "LocationRelation", p, **kw)
        hor, ver_ = le(absz(dy), ctol), le(absz(dx), ctol)
        # offset of the point from the line: vertical (horizontal for vertical lines)
        if h.rt.truth(S(hor)):
            off = sub(v[1], v0[1])
            names = ("BELOW", "ABOVE")
        elif h.rt.truth(S(ver_)):
            off = sub(v[0], v0[0])
            names = ("LEFT", "RIGHT")
        else:
            off = sub(v[1], add(v0[1], arith("/", mul(dy, sub(v[0], v0[0])), dx)))
            names = ("BELOW", "ABOVE")
        on = le(absz(off), tol)
        want = {"ON": on, names[0]: And(Not(on), lt(off, 0)), names[1]: And(Not(on), gt(off, 0))}
        name = [n for n in ("ON", "BELOW", "ABOVE", "LEFT", "RIGHT") if r is member(h, L2, n)]
        h.ensure("LocationRelation returns a Location", len(name) == 1)
        h.ensure("location of the point", want.get(name[0], z3.BoolVal(False)) if name else False)
        h.ensure("IsHorizontal", formula(h.attr(line, "IsHorizontal")) == hor)
        h.ensure("IsVertical", formula(h.attr(line, "IsVertical")) == ver_)
    T("Line2D.LocationRelation", relation, [L2 + ".Line2D.__init__", L2 + ".Line2D.LocationRelation", L2 + ".Line2D.IsHorizontal", L2 + ".Line2D.IsVertical"])

    def coord(h):
        v0, v1, dx, dy, line = setup(h, TOL)
        k = h.real("known")
        which = h.choose([None, "x", "y"], "which")
        call = h.choose(["Coordinate", "__call__"], "via")
        f = h.attr(line, "Coordinate") if call == "Coordinate" else line
        o = h.outcome(f, k, **({} if which is None else {"which": which}))
        hor, ver_ = le(absz(dy), TOL), le(absz(dx), TOL)
        wx = which != "y"
        bad = And(Not(hor), ver_) if wx else hor
        if o[0] == "raise":
            h.ensure("RuntimeError only for an unsolvable coordinate", And(z3.BoolVal(o[1] == "RuntimeError"), bad))
            return
        h.ensure("unsolvable coordinates are rejected", Not(bad))
        r = o[1]
        h.ensure("a pair", isinstance(r, tuple) and len(r) == 2)
        x, y = r
        h.ensure("the known coordinate is kept", h.eq(x if wx else y, k))
        if h.rt.truth(S(hor)):
            h.ensure("the point lies on the horizontal line", eqz(y, v0[1]))
        elif h.rt.truth(S(ver_)):
            h.ensure("the point lies on the vertical line", eqz(x, v0[0]))
        else:
            h.ensure("the point lies on the line", eqz(mul(dx, sub(y, v0[1])), mul(dy, sub(x, v0[0]))))
    T("Line2D.Coordinate", coord, [L2 + ".Line2D.Coordinate"])

    def factory(h):
        v0, v1, dx, dy, line = setup(h, TOL)
        n = h.choose([1, 2, 3], "n")
        t = [h.real("t%d" % i) for i in range(n)]
        r = h.meth(line, "PointsFactory", h.choose([list, tuple], "k")(t))
        h.ensure("one point per ratio", isinstance(r, np.ndarray) and r.shape == (n, 2))
        for i in range(n):
            h.ensure("point %d is p0 + t (p1 - p0)" % i, And(eqz(r[i, 0], add(v0[0], mul(t[i], dx))), eqz(r[i, 1], add(v0[1], mul(t[i], dy)))))
    T("Line2D.PointsFactory (1-3 ratios)", factory, [L2 + ".Line2D.PointsFactory"])

    def factory_default(h):
        v0, v1, dx, dy, line = setup(h, TOL)
        r = h.meth(line, "PointsFactory")
        h.ensure("101 points", isinstance(r, np.ndarray) and r.shape == (101, 2))
        for i in (0, 1, 50, 99, 100):
            t = Fraction(i, 100)
            h.ensure("default point %d" % i, And(eqz(r[i, 0], add(v0[0], mul(t, dx))), eqz(r[i, 1], add(v0[1], mul(t, dy)))))
    T("Line2D.PointsFactory default", factory_default, [L2 + ".Line2D.PointsFactory"])

    def same(h):
        (v0, p0), (v1, p1) = pt(h, "a"), pt(h, "b")
        h.requires(And(le(absz(sub(v1[0], v0[0])), TOL), le(absz(sub(v1[1], v0[1])), TOL)))
        h.ensure_raises("coincident points raise ValueError", h.outcome(h.get(L2, "Line2D"), p0, p1), "ValueError")
    T("coincident points", same, [L2 + ".Line2D.__init__"])
    polygon_tasks(out)
    return out


# ---------------------------------------------------------------------------
# polygons with any number of vertices, over the contract of Line2D proved above
from pyvc.sarr import SArr, conc
from pyvc.seqs import norm_term

R7 = [z3.RealSort()] * 7
OFFSET = z3.Function("line_offset", *(R7 + [z3.RealSort()]))          # ctol, p0, p1, point -> signed offset
VERTNAMES = z3.Function("line_sideways", *(R7[:5] + [z3.BoolSort()]))   # LEFT/RIGHT instead of BELOW/ABOVE


def coords2(h, p):
    if isinstance(p, (tuple, list)) and len(p) == 2:
        return list(p)
    a = p
    if isinstance(a, SArr):
        return [h.rt.get_item(a, 0), h.rt.get_item(a, 1)]
    if isinstance(a, np.ndarray) and a.shape == (2,):
        return [a[0], a[1]]
    raise Unsupported("a point %r" % (p,))


def line_contract(h):
    """Contract of Line2D(p0, p1, tol=ctol) and LocationRelation, as proved by the tasks above."""
    def new(rt, cls, args, kw):
        kw = dict(kw)
        p0, p1 = args if len(args) == 2 else (kw.pop("p0"), kw.pop("p1"))
        tol = kw.pop("tol", TOL)
        if kw:
            raise Unsupported("arguments of Line2D")
        a, b = coords2(h, p0), coords2(h, p1)
        if rt.truth(S(And(le(absz(sub(a[0], b[0])), tol), le(absz(sub(a[1], b[1])), tol)))):
            raise PyRaise(ValueError("identical points"))
        o = Obj(cls)
        o.attrs["__line"] = (tol, a, b)
        return o

    def locate(rt, f, args, kw):
        kw = dict(kw)
        self_, point = (list(args) + [kw.pop("point", None)])[:2]
        tol = kw.pop("tol", TOL)
        if kw or "__line" not in self_.attrs:
            raise Unsupported("arguments of LocationRelation")
        x = coords2(h, point)
        ctol, a, b = self_.attrs["__line"]
        off = S(offset(ctol, a, b, x))
        if rt.truth(compare("<=", absz(off), tol)):
            return member(h, L2, "ON")
        side = rt.truth(S(VERTNAMES(*[zr(t) for t in [ctol] + a + b])))
        if rt.truth(compare("<", off, 0)):
            return member(h, L2, "LEFT" if side else "BELOW")
        return member(h, L2, "RIGHT" if side else "ABOVE")
    return {"new:" + L2 + ".Line2D": new, L2 + ".Line2D.LocationRelation": locate}


def offset(ctol, a, b, x):
    return OFFSET(*[zr(t) for t in [ctol] + list(a) + list(b) + list(x)])


class Poly:
    """N >= 3 arbitrary vertices; facts about an edge are assumed when its vertices are read."""

    def __init__(self, h):
        self.h = h
        self.n = h.int("N")
        h.requires(self.n.e >= 3)
        self.X = z3.Function("VX", z3.IntSort(), z3.RealSort())
        self.Y = z3.Function("VY", z3.IntSort(), z3.RealSort())
        self.seen = []
        self.fact = None

    def vertex(self, k):
        return [S(self.X(zi(k))), S(self.Y(zi(k)))]

    def read(self, j):
        k, c = j[0], self.h.c
        if self.fact is not None and not c.pure:
            e = zi(k)
            if not any(e.eq(x.e) for x in self.seen):
                self.seen.append(S(e))
                c.assume(Implies(And(e >= 0, e < self.n.e), self.fact(S(e))))
        x, y = self.vertex(k)
        q = conc(j[1])
        if isinstance(q, int):
            return x if q in (0, -2) else y
        return ite(compare("==", q, 0), x, y)

    def array(self):
        return SArr((self.n, 2), self.read, "r")

    def edge(self, k):
        nxt = S(z3.If(zi(k) + 1 == self.n.e, z3.IntVal(0), zi(k) + 1))
        return self.vertex(k), self.vertex(nxt)


def in_box(p, q, tol, v):
    def mn(a, b): return ite(le(a, b), a, b)
    def mx(a, b): return ite(ge(a, b), a, b)
    return And([And(le(sub(mn(a, b), tol), x), le(x, add(mx(a, b), tol))) for a, b, x in zip(p, q, v)])


GEOMETRY = "geometry: a convex polygon is the intersection of its edges' half planes and meets an edge's line exactly in that edge"


def polygon_tasks(out):
    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [PG + "." + f for f in functions],
                        modules=[PG, L2], assumes=[FP, "scipy pdist: distances of all pairs of distinct rows", GEOMETRY], **kw))

    def pdist_any(h, bound):
        """pdist of at least three points: some distances, all larger (or some not) than the bound."""
        def pdist(rt, a, k):
            D = z3.Function("pdist", z3.IntSort(), z3.RealSort())
            n2 = z3.Int(h.c.name("npairs"))
            h.c.assume(n2 >= 3)
            q = z3.Int(h.c.name("q"))
            if bound is not None:
                h.c.assume(z3.ForAll([q], Implies(And(q >= 0, q < n2), D(q) > zr(bound))))
            else:
                h.c.assume(And(q >= 0, q < n2, D(q) <= zr(TOL)))
            return SArr((S(n2),), lambda j: S(D(zi(j[0]))), "r")
        h.ver.task.uses["scipy.pdist"] = pdist

    def duplicates(h):
        poly = Poly(h)
        pdist_any(h, None)
        h.ensure_raises("vertices closer than the tolerance raise ValueError", h.outcome(h.get(PG, "Polygon"), poly.array()), "ValueError")
    T("Polygon: duplicate vertices", duplicates, ["Polygon.__init__"])

    def attributes(h):
        poly = Poly(h)
        pdist_any(h, TOL)
        pg = h.ensure_ok("distinct vertices give a polygon", h.outcome(h.get(PG, "Polygon"), poly.array()))
        h.ensure("vertices_num", h.eq(h.attr(pg, "vertices_num"), poly.n))
        v = h.attr(pg, "vertices")
        k = h.int("k")
        h.requires(And(k.e >= 0, k.e < poly.n.e))
        x, y = poly.vertex(k)
        row = h.rt.get_item(v, k)
        h.ensure("the stored vertices are the given ones", And(h.eq(h.rt.get_item(row, 0), x), h.eq(h.rt.get_item(row, 1), y)))
    T("Polygon attributes, any number of vertices", attributes, ["Polygon.__init__", "Polygon.vertices", "Polygon.vertices_num"])

    def locate(h):
        h.ver.task.uses.update(line_contract(h))
        h.c.data["norm-opaque"] = True
        poly = Poly(h)
        pdist_any(h, TOL)
        pg = h.ensure_ok("distinct vertices give a polygon", h.outcome(h.get(PG, "Polygon"), poly.array()))
        tol, kw = TOL, {}
        if h.choose([False, True], "tol"):
            tol = h.real("tol")
            h.requires(gt(tol, 0))
            kw = {"tol": tol}
        v, p = pt(h, "q")
        r, ref = pt(h, "r", tuple)
        g = h.int("g")                      # an arbitrary edge / vertex
        h.requires(And(g.e >= 0, g.e < poly.n.e))
        D = lambda k: norm_term(h.rt, [sub(a, b) for a, b in zip(poly.vertex(k), v)])

        def off(k, x):
            a, b = poly.edge(k)
            return S(offset(tol, a, b, x))

        def fact(k):
            """edge k: endpoints apart; the reference point is off its line (it is interior)."""
            a, b = poly.edge(k)
            return And(Or(gt(absz(sub(b[0], a[0])), tol), gt(absz(sub(b[1], a[1])), tol)), gt(absz(off(k, r)), tol))
        poly.fact = fact
        h.c.assume(fact(g))
        h.c.data["vars"] = (off, g, v, r, tol, poly)
        res = h.ensure_ok("no exception", h.outcome(lambda: h.meth(pg, "LocationRelation", p, ref, **kw)))
        name = [n for n in ("CORNER", "BOUNDARY", "INSIDE", "OUTSIDE") if res is member(h, PG, n)]
        h.ensure("a polygon Location is returned", len(name) == 1)
        name = name[0] if name else ""
        ks = list(poly.seen) + [g]
        same = lambda k: ge(off(k, v), 0) == ge(off(k, r), 0)
        on = lambda k: le(absz(off(k, v)), tol)
        ok = lambda k: And(k.e >= 0, k.e < poly.n.e)
        if name == "CORNER":
            kk = z3.Int(h.c.name("kk"))
            h.ensure("CORNER only within tolerance of a vertex", z3.Exists([kk], And(ok(S(kk)), le(D(S(kk)), tol))))
        else:
            h.ensure("%s: not within tolerance of any vertex" % name, gt(D(g), tol))
        if name == "INSIDE":
            h.ensure("INSIDE: off every edge line, on the reference point's side of every edge", And(Not(on(g)), same(g)))
        if name == "BOUNDARY":
            h.ensure("BOUNDARY: on the line of an edge and within its extent", Or([And(ok(k), on(k), in_box(*poly.edge(k), tol, v)) for k in ks]))
        if name == "OUTSIDE":
            h.ensure("OUTSIDE: strictly on the other side of an edge, or on an edge's line beyond the edge",
                     Or([And(ok(k), Or(And(Not(on(k)), Not(same(k))), And(on(k), Not(in_box(*poly.edge(k), tol, v))))) for k in ks]))

    def inv(loop):
        c = Ctx.cur
        if "vars" not in c.data:
            return []
        off, g, v, r, tol, poly = c.data["vars"]

        def passed(st):
            return Implies(g.e < zi(st.k), And(gt(absz(off(g, v)), tol), ge(off(g, v), 0) == ge(off(g, r), 0)))

        def shifted(st):
            # edges visited in the order (last, first), (first, second), ...
            return Implies(If(g.e + 1 == poly.n.e, 0, g.e + 1) < zi(st.k), And(gt(absz(off(g, v)), tol), ge(off(g, v), 0) == ge(off(g, r), 0)))
        out = [("every edge visited so far has the point strictly on the reference side", passed),
               ("the same, the closing edge first", shifted)]
        for nm, x in loop.entry.items():
            if isinstance(x, (SArr, np.ndarray)) and len(x.shape) == 1 and conc(x.shape[0]) == 2:
                for what, at in (("vertex k", lambda k: k), ("the vertex before k", lambda k: If(k == 0, poly.n.e - 1, k - 1)), ("vertex k + 1", lambda k: If(k + 1 == poly.n.e, 0, k + 1))):
                    def is_vertex(st, nm=nm, at=at):
                        e = z3.simplify(at(zi(st.k)))
                        w = poly.vertex(S(e))
                        if st.assuming and not any(e.eq(x.e) for x in poly.seen):
                            poly.seen.append(S(e))
                            c.assume(Implies(And(e >= 0, e < poly.n.e), poly.fact(S(e))))
                        return And([eqz(loop.rt.get_item(st[nm], q), w[q]) for q in range(2)])
                    out.append(("%s is %s" % (nm, what), is_vertex))
        return out
    T("Polygon.LocationRelation, any number of vertices", locate, ["Polygon.LocationRelation"], invariants=inv, budget=200)
