"""C21: averages and total-spin matrices, for any state, any operator, any number of spins."""
from .base import *
from . import c08
from .c08 import Mat, exponent
from pyvc.hilbert import Vec, Op, MAP, inner, adjoint
from pyvc.sym import cparts

AV = "HamiltonianPy.averages"
TS = "HamiltonianPy.tools.TotalSpin"
I, R = z3.IntSort(), z3.RealSort()
HALF = Fraction(1, 2)
SPINS = {"S_x": ((0, HALF), (HALF, 0)), "Im S_y": ((0, -HALF), (HALF, 0)), "S_z": ((HALF, 0), (0, -HALF))}
# an arbitrary entry of the elementary 2x2 matrix |a><b| acting on site i
U = {(a, b): z3.Function("elementary_%d%d" % (a, b), I, R) for a in (0, 1) for b in (0, 1)}
ID = z3.Real("identity_entry")


class Entry:
    """A sparse 2^n x 2^n matrix, by its value at one arbitrary entry."""
    model = True
    pytype = object

    def __init__(self, v):
        self.v = v

    def m_kind(self):
        return "entry"

    def m_havoc(self, rt, name):
        return Entry(fresh("r", name))

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-"):
            if is_num(o):
                if isinstance(o, S) and Ctx.cur.loops:
                    rt.ver.peel_now("an accumulator starts as a number")
                if not (isinstance(o, (int, Fraction)) and o == 0):
                    raise PyRaise(NotImplementedError("adding a nonzero scalar to a sparse array is not supported"))
                return Entry(self.v if left or op == "+" else arith("-", 0, self.v))
            o = as_entry(o)
            return Entry(arith(op, self.v, o.v) if left else arith(op, o.v, self.v))
        if op == "*" and is_num(o):
            return Entry(arith("*", o, self.v))
        if op == "/" and is_num(o) and left:
            return Entry(rt.binop("/", self.v, o))
        return NotImplemented

    def m_attr(self, rt, name):
        if name in ("tocsr", "copy", "asformat"):
            return Native(name, lambda r, a, k: self)
        raise Unsupported("attribute %s of a sparse matrix" % name)


def as_entry(m):
    """The value of a tensor layout at the arbitrary entry: linear in the entries of its 2x2 factor."""
    if isinstance(m, Entry):
        return m
    if not isinstance(m, Layout):
        raise Unsupported("not a matrix: %r" % (m,))
    c = Ctx.cur
    h = H(c.ver.rt, c)
    n = c.data["total"]
    h.ensure("the matrix acts on all sites", eqz(width_of(m.segs), n))
    fac = [(i, w) for i, (k, w) in enumerate(m.segs) if k != "I"]
    if not fac:
        return Entry(arith("*", m.scalar, S(ID)))
    if len(fac) > 1:
        raise Unsupported("a layout with two factors")
    i, ent = fac[0]
    pos = add(0, *[1 if k != "I" else w for k, w in m.segs[:i]])
    v = 0
    for (a, b), f in U.items():
        v = add(v, mul(ent[a][b], S(f(zi(pos)))))
    return Entry(mul(m.scalar, v))


class Layout(Mat):
    def m_kind(self):
        return "entry"

    def m_havoc(self, rt, name):
        return Entry(fresh("r", name))

    def m_binop(self, rt, op, o, left):
        if op in ("+", "-"):
            return as_entry(self).m_binop(rt, op, o, left)
        if op in ("*", "/") and is_num(o) and (left or op == "*"):
            return Layout(rt.binop(op, self.scalar, o), self.segs)
        return NotImplemented


def lay(m):
    return Layout(m.scalar, [(k if k == "I" else "M", w) for k, w in m.segs])


def identity(rt, a, k):
    return lay(c08.identity(rt, a, k))


def kron(rt, a, k):
    parts = []
    for x in (a[0], a[1]):
        if isinstance(x, Layout):
            parts.append(x)
        elif isinstance(x, np.ndarray) and x.shape == (2, 2):
            parts.append(Layout(1, [("M", [[x[r, s] for s in range(2)] for r in range(2)])]))
        else:
            raise Unsupported("kron of %r" % (x,))
    A, B = parts
    return Layout(mul(A.scalar, B.scalar), B.segs + A.segs)


def width_of(segs):
    return add(0, *[w if k == "I" else 1 for k, w in segs])


def site_entry(what, i):
    m = SPINS[what]
    return add(0, *[mul(m[a][b], S(f(i))) for (a, b), f in U.items()])


PS = {w: z3.Function("sum_of_%s" % w, I, R) for w in SPINS}


def unfold(c, k):
    for w, f in PS.items():
        c.assume(And(f(0) == 0, f(k) == If(k <= 0, z3.RealVal(0), f(k - 1) + zr(site_entry(w, k - 1)))))


def sums(loop):
    c = Ctx.cur
    out = []
    names = set(loop.entry)
    for n in names:
        for w in SPINS:
            def f(st, n=n, w=w):
                unfold(c, zi(st.k))
                v = st[n]
                if is_num(v):
                    return And(eqz(v, 0), zi(st.k) == 0)
                return eqz(as_entry(v).v, S(PS[w](zi(st.k))))
            out.append(("%s is the sum of %s over the sites so far" % (n, w), f))

            def g(st, n=n, w=w):
                v = st[n]
                N, k = zi(c.data["total"]), zi(st.k)
                unfold(c, N)
                unfold(c, N - k)
                unfold(c, N - k + 1)
                if is_num(v):
                    return And(eqz(v, 0), k == 0)
                return And(k <= N, eqz(as_entry(v).v, S(PS[w](N) - PS[w](N - k))))
            out.append(("%s is the sum of %s over the last sites" % (n, w), g))
    return out


def tasks():
    out = []

    def matrices(mod, name):
        def body(rt, c):
            h = H(rt, c)
            n = h.int("n")
            h.requires(n.e > 0)
            c.data.update(total=n)
            r = h.call(h.get(mod, name), n)
            h.ensure("three matrices", isinstance(r, tuple) and len(r) == 3)
            for m, w in zip(r, SPINS):
                unfold(c, n.e)
                h.ensure_value("sum of %s over all sites" % w, as_entry(m).v, S(PS[w](n.e)))
        out.append(Task("%s(n) for any n" % name, body, ["%s.%s" % (mod, name)], modules=[mod], invariants=sums,
                        uses={"scipy.identity": identity, "scipy.eye": identity, "scipy.kron": kron},
                        assumes=["scipy.sparse.kron/identity: Kronecker product and identity of dimension 2^e; sparse sums add entries", "total spin number is a mathematical integer"]))

        def reject(rt, c):
            h = H(rt, c)
            n = h.int("n")
            h.requires(n.e <= 0)
            h.ensure_raises("non-positive numbers of spins are rejected", h.outcome(h.get(mod, name), n), "AssertionError")
            h.ensure_raises("real numbers of spins are rejected", h.outcome(h.get(mod, name), h.real("x")), "AssertionError")
        out.append(Task("%s rejections" % name, reject, ["%s.%s" % (mod, name)], modules=[mod]))
    matrices(AV, "TotalSpinMatrices")
    matrices(TS, "TotalSpin")

    def average(rt, c):
        h = H(rt, c)
        k, o = h.int("psi").e, h.int("O").e
        ket, op = Vec([(k, 1)]), Op([(o, 1)])
        nn = inner(k, k).re
        h.requires(gt(nn, 0))
        r = h.call(h.get(AV, "QuantumAverages"), ket, op)
        g = inner(k, MAP(o, k))
        h.ensure_value("<psi|O|psi>/<psi|psi>", r, Cx(rt.binop("/", g.re, nn), rt.binop("/", g.im, nn)))
        h.ensure("the state and the operator are unchanged", z3.BoolVal(ket.terms == [(k, 1)] and op.terms == [(o, 1)]))
    out.append(Task("QuantumAverages", average, [AV + ".QuantumAverages"], modules=[AV], assumes=["numpy.vdot is the inner product (conjugating its first argument)"]))

    TX, TY, TZ = z3.Int("total_x"), z3.Int("total_y_imag"), z3.Int("total_z")

    def calculator(rt, c):
        h = H(rt, c)
        n = h.int("n")
        h.requires(n.e > 0)
        calc = h.call(h.get(AV, "TotalSpinAverages"), n)
        kets = [h.int("psi").e, h.int("phi").e]
        for round_, k in enumerate([kets[0], kets[1], kets[0]]):
            s = h.cx("scale") if round_ == 2 else 1
            if round_ == 2:
                h.requires(Or(Not(eqz(s.re, 0)), Not(eqz(s.im, 0))))
            ket = Vec([(k, s)])
            before = list(ket.terms)
            nn = inner(k, k).re
            h.requires(gt(nn, 0))
            r = h.call(calc, ket)
            lab = ("", " (another state, same calculator)", " (the first state again, scaled)")[round_]
            h.ensure("four averages" + lab, isinstance(r, tuple) and len(r) == 4)
            # the totals are Hermitian: real symmetric, or i times real antisymmetric
            s2 = 0
            for op, sg in ((TX, 1), (TZ, 1), (TY, -1)):
                kk = MAP(op, k)
                adjoint(op, k, k, sg)
                adjoint(op, k, kk, sg)
                s2 = add(s2, mul(sg, inner(k, MAP(op, kk)).re))
            div = lambda v: rt.binop("/", v, nn)
            cdiv = lambda z: Cx(div(z.re), div(z.im))
            h.ensure_value("average of S^2" + lab, r[0], Cx(div(s2), 0))
            h.ensure_value("average of S_x" + lab, r[1], cdiv(inner(k, MAP(TX, k))))
            y = inner(k, MAP(TY, k))
            h.ensure_value("average of S_y" + lab, r[2], cdiv(Cx(sub(0, y.im), y.re)))
            h.ensure_value("average of S_z" + lab, r[3], cdiv(inner(k, MAP(TZ, k))))
            h.ensure("the state is unchanged" + lab, z3.BoolVal(len(ket.terms) == 1 and ket.terms[0] is before[0]))

    def contract(rt, f, args, kw):
        env = rt.bind_args(f, list(args), kw).vars
        return (Op([(TX, 1)]), Op([(TY, 1)]), Op([(TZ, 1)]))
    out.append(Task("TotalSpinAverages", calculator, [AV + ".TotalSpinAverages"], modules=[AV], uses={AV + ".TotalSpinMatrices": contract},
                    assumes=["numpy.vdot/linalg.norm are the inner product and its norm", "the total-spin matrices are symmetric (x, z) and antisymmetric (Im y): sums of tensor products of such matrices"]))
    return out
