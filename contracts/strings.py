"""Operator strings of any length over abstract operators (shared by C03, C04, C09)."""
from .base import *
from pyvc.seqs import SSeq, SList
from pyvc.sarr import conc
from pyvc.maps import KObj

I = z3.IntSort()
DAG = z3.Function("DAG", I, I)          # code of the conjugate operator
OTYPE = z3.Function("OTYPE", I, I)
STATE = z3.Function("STATE", I, I)      # code of the state (or site) of an operator
INDEX = z3.Function("INDEX", I, I)      # index of a state in a table


def abstract(cls, t):
    """An arbitrary operator of the class; the code stands for its value."""
    o = Obj(cls)
    o.attrs["code"] = S(z3.simplify(t))
    return o


def code(rt, o):
    return o.attrs["code"].e if isinstance(o, Obj) and "code" in o.attrs else None


def string(h, cls, name, n=None, kind=tuple):
    """An arbitrary string of operators: (length, code function, value)."""
    n = h.int("n" + name) if n is None else n
    if isinstance(n, S):
        h.requires(n.e >= 0)
    F = z3.Function(h.c.name("W" + name), I, I)
    fn = lambda k: abstract(cls, F(zi(k)))
    return n, (lambda k: F(zi(k))), (SSeq(n, fn, tuple) if kind is tuple else SList(n, fn))


def dagger_contract(mod, cls):
    def dag(rt, f, args, kw):
        o = args[0]
        t = code(rt, o)
        if t is None:
            return inline(rt, f, args, kw)
        Ctx.cur.assume(DAG(DAG(t)) == t)
        return abstract(o.cls, DAG(t))
    return {"%s.%s.dagger" % (mod, cls): dag}


def inline(rt, f, args, kw):
    """The body of f, as if there were no contract."""
    q = f.qual
    u = rt.ver.task.uses
    g = u.pop(q)
    try:
        return rt.call_func(f, args, kw)
    finally:
        u[q] = g


def seq_of(h, v):
    """(length, at) of a sequence value."""
    if isinstance(v, (tuple, list)):
        return len(v), lambda k: h.rt.get_item(v, k)
    if isinstance(v, (SSeq, SList)):
        return v.n, lambda k: v.fn(conc(k))
    return None


class Rank(KObj):
    """A state (or site) id as its rank in the total order of C07."""

    def m_compare(self, rt, op, o):
        if not isinstance(o, Rank):
            return KObj.m_compare(self, rt, op, o)
        return compare(op, S(self.t), S(o.t))


def gt_codes(a, b):
    """a > b in the order of creation/annihilation operators (C07)."""
    ca, cb = OTYPE(a) == 1, OTYPE(b) == 1
    return If(ca, And(cb, STATE(a) > STATE(b)), Or(cb, STATE(a) < STATE(b)))


def same_codes(a, b):
    return And(OTYPE(a) == OTYPE(b), STATE(a) == STATE(b))


def order_contracts(PS):
    """Contract of the comparison and accessor methods of AoC on abstract operators (proved in C07)."""
    def two(fn):
        def g(rt, f, args, kw):
            a, b = code(rt, args[0]), code(rt, args[1])
            if a is None or b is None:
                return inline(rt, f, args, kw)
            for t in (a, b):
                Ctx.cur.assume(And(OTYPE(t) >= 0, OTYPE(t) <= 1))
            return S(fn(a, b))
        return g

    def one(fn):
        def g(rt, f, args, kw):
            a = code(rt, args[0])
            if a is None:
                return inline(rt, f, args, kw)
            Ctx.cur.assume(And(OTYPE(a) >= 0, OTYPE(a) <= 1))
            return fn(a)
        return g
    A = PS + ".AoC."
    return {A + "__gt__": two(gt_codes), A + "__lt__": two(lambda a, b: gt_codes(b, a)),
            A + "__ge__": two(lambda a, b: Or(gt_codes(a, b), same_codes(a, b))), A + "__le__": two(lambda a, b: Or(gt_codes(b, a), same_codes(a, b))),
            A + "__eq__": two(same_codes), A + "__ne__": two(lambda a, b: Not(same_codes(a, b))),
            A + "same_state": two(lambda a, b: STATE(a) == STATE(b)),
            A + "conjugate_of": two(lambda a, b: And(STATE(a) == STATE(b), OTYPE(a) != OTYPE(b))),
            A + "otype": one(lambda a: S(OTYPE(a))), A + "state": one(lambda a: Rank(STATE(a)))}


def ensure_string(h, label, v, length, want):
    """v is the string of the given length whose q-th operator has code want(q)."""
    s = seq_of(h, v)
    if s is None:
        h.fail(label + ": not a sequence")
        raise PathEnd()
    n, at = s
    h.ensure(label + ": length", eqz(n, length))
    q = h.int("q")
    h.requires(And(q.e >= 0, lt(q, length)))
    o = at(q)
    t = code(h.rt, o)
    if t is None:
        h.fail(label + ": not one of the operators")
        raise PathEnd()
    h.ensure(label + ": operator at every position", t == want(q.e))
