"""C09: the Schwinger terms of an interaction of any length, over the contracts of SpinOperator.Schwinger and of the product of terms (C03)."""
from .base import *
from .strings import *
from pyvc.seqs import StarArgs, SSeq, SList
from pyvc.sarr import conc

R = z3.RealSort()
NS = z3.Function("number_of_subterms", I, I)          # of the operator with this code
SC = z3.Function("subterm_code", I, I, I, I)          # operator, subterm, 0 or 1: its creation/annihilation operators
SR, SI_ = z3.Function("subterm_re", I, I, R), z3.Function("subterm_im", I, I, R)


class TermM:
    """A ParticleTerm: a coefficient and the codes of its operators."""
    model = True

    def __init__(self, n, fn, c):
        self.n, self.fn = conc(n), fn
        self.c = c if isinstance(c, Cx) else Cx(S(zr(c)), S(zr(0)))

    def m_kind(self):
        return "term"

    def m_havoc(self, rt, name):
        c = Ctx.cur
        F = z3.Function(c.name("codes"), I, I)
        return TermM(fresh("i", "length"), lambda q: F(zi(q)), Cx(fresh("r", "re"), fresh("r", "im")))

    def m_attr(self, rt, name):
        if name in ("coeff", "_coeff"):
            return self.c
        raise Unsupported("ParticleTerm.%s" % name)

    def m_binop(self, rt, op, o, left):
        if op != "*":
            return NotImplemented
        if isinstance(o, TermM):
            a, b = (self, o) if left else (o, self)
            n = zi(a.n)
            return TermM(add(a.n, b.n), lambda q: If(zi(q) < n, a.fn(q), b.fn(zi(q) - n)), mul(a.c, b.c))
        if is_num(o):
            return TermM(self.n, self.fn, mul(self.c, o))
        return NotImplemented


def same_number(c, re, im):
    return And(zr(c.re) == re, zr(c.im) == im)


class Goal:
    """The term of the ghost iteration, looked at at a ghost position."""

    def __init__(self, h, m, at, c):
        g = h.c
        self.m, self.at, self.c = m, at, c if isinstance(c, Cx) else Cx(S(zr(c)), S(zr(0)))
        self.it, self.q = h.int("choice").e, h.int("position").e
        self.CH = z3.Function(g.name("choice_of"), I, I, I)            # term, operator: which of its subterms
        self.parts = {n: (z3.Function(g.name("product_re" + n), I, I, R), z3.Function(g.name("product_im" + n), I, I, R)) for n in ("with c", "of subterms")}
        self.P = z3.Int(g.name("choices"))
        h.requires(And(self.it >= 0, self.it < self.P, self.q >= 0, self.q < 2 * zi(m)))

    def sub(self, t, k):
        o, j = self.at(k), self.CH(t, k)
        return TermM(2, lambda q: SC(o, j, zi(q)), Cx(S(SR(o, j)), S(SI_(o, j))))

    def product(self, t, k, which="with c"):
        """Product of the coefficients of the first k chosen subterms (times c), by its definition at 0 and at k."""
        c, s = Ctx.cur, self.sub(t, k - 1)
        fr, fi = self.parts[which]
        T = lambda k: Cx(S(fr(t, k)), S(fi(t, k)))
        one = self.c if which == "with c" else Cx(S(zr(1)), S(zr(0)))
        c.assume(same_number(T(z3.IntVal(0)), zr(one.re), zr(one.im)))
        w = mul(T(k - 1), s.c)
        c.assume(Implies(k >= 1, same_number(T(k), zr(w.re), zr(w.im))))
        if which == "with c":
            # by induction on k: c (x y) = (c x) y
            w = mul(self.c, Cx(*[S(f(t, k)) for f in self.parts["of subterms"]]))
            c.assume(Implies(k >= 0, same_number(T(k), zr(w.re), zr(w.im))))
        return fr(t, k), fi(t, k)

    def code(self, t):
        k = self.q / 2
        return SC(self.at(k), self.CH(t, k), self.q % 2)


class Terms:
    """The list of terms: how many the ghost iteration appended, and the last of them."""
    model = True
    mutable = True
    pytype = list

    def __init__(self):
        self.count, self.n, self.code, self.re, self.im = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), z3.RealVal(0), z3.RealVal(0)

    def m_attr(self, rt, name):
        if name == "append":
            return Native(name, self.append)
        raise Unsupported("list.%s of terms" % name)

    def append(self, rt, a, k):
        c = Ctx.cur
        g, b = c.data["goal"], a[0]
        if not isinstance(b, TermM) or len(c.loops) != 1:
            raise Unsupported("a list of terms that grows in another way")
        rt.ver.note_write(self, None)
        now = zi(c.loops[-1].k) == g.it
        pick = lambda x, y: z3.If(now, x, y)
        self.count = pick(self.count + 1, self.count)
        self.n, self.code, self.re, self.im = pick(zi(b.n), self.n), pick(b.fn(g.q), self.code), pick(zr(b.c.re), self.re), pick(zr(b.c.im), self.im)

    def m_len(self, rt):
        raise Unsupported("number of terms")

    def m_snapshot(self, rt):
        return None

    def m_heap_havoc(self, rt, snap):
        c = Ctx.cur
        self.count, self.n, self.code = [z3.Int(c.name(x)) for x in ("count", "length", "code")]
        self.re, self.im = z3.Real(c.name("re")), z3.Real(c.name("im"))


def subterms(rt, f, args, kw):
    """Contract of SpinOperator.Schwinger (its own task): terms of two operators each."""
    t = code(rt, args[0])
    if t is None or "goal" not in Ctx.cur.data:
        return inline(rt, f, args, kw)
    Ctx.cur.assume(NS(t) >= 0)
    return SList(S(NS(t)), lambda j: TermM(2, lambda q: SC(t, zi(j), zi(q)), Cx(S(SR(t, zi(j))), S(SI_(t, zi(j))))))


def product(rt, a, rep):
    """itertools.product(*lists): every choice of one element of each list, once."""
    c = Ctx.cur
    g = c.data.get("goal")
    if g is None or not (len(a) == 1 and isinstance(a[0], StarArgs) and isinstance(rep, int) and rep == 1):
        raise Unsupported("product of this form")
    h = H(rt, c)
    seq = a[0].seq
    K = seq.length(rt)
    h.ensure("one list of subterms for every operator", eqz(K, g.m))
    j = fresh("i", "operator")
    x = seq.at(rt, j)
    if not isinstance(x, (SList, SSeq)):
        raise Unsupported("product of other things")
    c.assume(NS(g.at(j.e)) >= 0)
    h.ensure("all subterms of every operator take part", Implies(And(j.e >= 0, j.e < zi(g.m)), eqz(x.n, S(NS(g.at(j.e))))))

    def tup(t):
        return SSeq(K, lambda k: seq.at(rt, S(zi(k))).fn(S(g.CH(zi(t), zi(k)))), tuple)
    return SSeq(S(g.P), tup, tuple)


def invariants(loop):
    out = []
    g = Ctx.cur.data.get("goal")
    if g is None:
        return out
    if len(Ctx.cur.loops) == 1:
        # the subterms of one term, from the first or the second on
        t = zi(Ctx.cur.loops[0].k)
        for nm in loop.entry:
            if not isinstance(loop.entry[nm], TermM):
                continue
            v = lambda st, nm=nm: st[nm]
            for off in (0, 1):
                w = "%s, %d in front" % (nm, off)
                out.append((w + ": two operators per spin operator", lambda st, v=v, off=off: eqz(v(st).n, mul(2, add(st.k, off)))))
                out.append((w + ": operators of the chosen subterms", lambda st, v=v, off=off: Implies(g.q < 2 * (zi(st.k) + off), v(st).fn(g.q) == g.code(t))))
                for which in g.parts:
                    out.append((w + ": product of the coefficients " + which, lambda st, v=v, off=off, which=which: same_number(v(st).c, *g.product(t, zi(st.k) + off, which))))
        return out
    for q, (key, (o, snap)) in enumerate(loop.heap.items()):
        if isinstance(o, Terms):
            out.append(("list %d: one term for every choice" % q, lambda st, o=o: o.count == z3.If(g.it < zi(st.k), 1, 0)))
            out.append(("list %d: its length" % q, lambda st, o=o: Implies(o.count == 1, o.n == 2 * zi(g.m))))
            out.append(("list %d: its operators" % q, lambda st, o=o: Implies(o.count == 1, o.code == g.code(g.it))))
            out.append(("list %d: its coefficient" % q, lambda st, o=o: Implies(o.count == 1, And([x == y for x, y in zip((o.re, o.im), g.product(g.it, zi(g.m)))]))))
    return out


HOOKS = {"itertools.product": product, "new-list": lambda rt: Terms() if "goal" in Ctx.cur.data else []}


def ask(h, t, m, at):
    """One call, and what its answer must be."""
    c = h.attr(t, "coeff")
    g = h.c.data["goal"] = Goal(h, m, at, c)
    r = h.meth(t, "Schwinger")
    del h.c.data["goal"]
    if not isinstance(r, Terms):
        raise Unsupported("terms listed in another way")
    return r, g


def right(h, what, r, g):
    """r is: for every choice of one subterm of every operator, c times their product, in the order of the operators."""
    h.ensure(what + ": one term for every choice of subterms", r.count == 1)
    h.ensure(what + ": two operators per spin operator", r.n == 2 * zi(g.m))
    h.ensure(what + ": the operators of the chosen subterms, in order", r.code == g.code(g.it))
    re, im = g.product(g.it, zi(g.m))
    h.ensure(what + ": the coefficient times those of the subterms", And(r.re == re, r.im == im))


def check(h, t, m, at):
    h.requires(zi(m) >= 1)
    r, g = ask(h, t, m, at)
    right(h, "Schwinger of an interaction", r, g)


def again(h, t, m, at, c2):
    """Asked twice, the coefficient set in between: two lists, each right for its moment; the interaction is as it was."""
    h.requires(zi(m) >= 1)
    c = h.attr(t, "coeff")
    r, g = ask(h, t, m, at)
    h.ensure_value("Schwinger leaves the coefficient", h.attr(t, "coeff"), c)
    ensure_string(h, "Schwinger leaves the operators", h.attr(t, "components"), m, at)
    if c2 is not None:
        h.rt.setattr(t, "coeff", c2)
    r2, g2 = ask(h, t, m, at)
    h.ensure("the answers are different lists", z3.BoolVal(r is not r2))
    right(h, "the answer given before", r, g)
    right(h, "the later answer", r2, g2)
    ensure_string(h, "Schwinger leaves the operators", h.attr(t, "components"), m, at)
