"""Sequences and collections of symbolic length."""
from fractions import Fraction

import ast
import numpy as np
import z3

from .sym import (S, Cx, Ctx, Unsupported, PathEnd, PyRaise, arith, compare, ite, fresh, is_num, ctx, z, zi, zr, zbv,
                  sort_of, tobool, cparts, BW)
from .interp import Obj, PDict, Native, Func, Bound, Env, Module, PyClass, Opaque, OpaqueStr
from . import sarr
from .sarr import SArr, FArr, Store, conc


class StarArgs:
    def __init__(self, seq):
        self.seq = seq


class SRange:
    """range(start, start + step*n, step) with a symbolic length."""
    model = True
    pytype = range

    def __init__(self, start, n, step=1):
        self.start, self.n, self.step = start, n, step

    def length(self, rt):
        return self.n

    def at(self, rt, k):
        k2 = k
        if isinstance(self.start, S) and sort_of(self.start.e) == "v" or isinstance(k, S) and sort_of(k.e) == "v":
            return S(zbv(self.start) + z3.BitVecVal(self.step, BW) * zbv(k))
        return plus(self.start, arith("*", k2, self.step) if self.step != 1 else k2)


def plus(a, b):
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return arith("+", a, b)


class SSeq:
    """Immutable sequence: length n (int or S), element k given by fn(k)."""
    model = True

    def __init__(self, n, fn, kind=tuple):
        self.n = conc(n)
        self.fn = fn
        self.pytype = kind

    def length(self, rt):
        return self.n

    def at(self, rt, k):
        return self.fn(k)

    def __repr__(self):
        return "<SSeq %s>" % (self.n,)


class SList:
    """Mutable list of symbolic length."""
    model = True
    pytype = list

    def __init__(self, n, fn):
        self.n = conc(n)
        self.fn = fn

    def length(self, rt):
        return self.n

    def at(self, rt, k):
        return self.fn(k)

    def freeze(self):
        return SSeq(self.n, self.fn, list)

    def store(self, rt, k, v):
        rt.ver.note_write(self, None)
        old = self.fn
        if is_num(v):
            self.fn = lambda j, old=old: ite(compare("==", j, k), v, old(j)) if True else None
        else:
            self.fn = lambda j, old=old: v if rt.truth(compare("==", j, k)) else old(j)

    def append(self, rt, v):
        rt.ver.note_write(self, None)
        n, old = self.n, self.fn

        def fn(j, old=old, n=n):
            e = compare("==", j, n)
            if is_num(v):
                try:
                    return ite(e, v, old(j))
                except Unsupported:
                    pass
            return v if rt.truth(e) else old(j)
        self.fn = fn
        self.n = conc(plus(n, 1))


class CodeList(SList):
    """Mutable list whose elements are coded by integers: content is an SMT array of codes."""
    mutable = True

    def __init__(self, n, arr, enc, dec):
        self.n, self.arr, self.enc, self.dec = conc(n), arr, enc, dec
        self.stores = []

    @property
    def fn(self):
        arr, dec = self.arr, self.dec
        return lambda k: dec(z3.Select(arr, zi(k)))

    def put(self, k, v):
        old = self.arr
        e = self.enc(v)
        if e is None:
            raise Unsupported("an element that the contract's list model does not know")
        self.arr = z3.Store(old, zi(k), e)
        self.stores.append((old, zi(k), e))

    def store(self, rt, k, v):
        rt.ver.note_write(self, None)
        self.put(k, v)

    def append(self, rt, v):
        rt.ver.note_write(self, None)
        key = (rt.ver.task.name, "grows")
        if ctx().loops and key not in rt.ver.peeled:
            from .verifier import Restart
            rt.ver.peeled.add(key)
            raise Restart("a list grows in a loop")
        self.put(self.n, v)
        self.n = conc(plus(self.n, 1))

    def m_snapshot(self, rt):
        return (self.n, self.arr)

    def m_heap_havoc(self, rt, snap):
        self.arr = z3.Const(ctx().name("codes"), self.arr.sort())
        self.stores = []
        if (rt.ver.task.name, "grows") in rt.ver.peeled:
            self.n = fresh("i", "len")


class SIter:
    """A one-shot iterator over a symbolic sequence."""
    model = True
    pytype = type(iter([]))

    def __init__(self, seq):
        self.seq = seq

    def length(self, rt):
        return self.seq.length(rt)

    def at(self, rt, k):
        return self.seq.at(rt, k)


class ArrIter:
    def __init__(self, a):
        self.a = a

    def length(self, rt):
        return self.a.shape[0]

    def at(self, rt, k):
        if self.a.ndim == 1:
            return self.a.get((k,))
        return sarr.row_at(rt, self.a, k)


class Family:
    """A one-shot or unordered family described only by membership (see contracts)."""
    model = True


MODELS = (SRange, SSeq, SList, SIter, SArr, FArr, Store, Family)


# -- protocol ---------------------------------------------------------------------
def proto(rt, it):
    if isinstance(it, (SRange, SSeq, SIter)):
        return it
    if isinstance(it, SList):
        return it.freeze()
    if isinstance(it, SArr):
        return ArrIter(it)
    f = getattr(it, "sym_iter", None)
    if f is not None and getattr(it, "model", False):
        return f(rt)
    return None


def fixed_length(v):
    from .sarr import SArr
    return isinstance(v, (SSeq, SArr))


def symbolic_iter(rt, it):
    if isinstance(it, Obj) and it.cls.lookup("__iter__") is not None:
        r = rt.call(rt.getattr(it, "__iter__"), [], {})
        return symbolic_iter(rt, r) if is_model(r) else None
    p = proto(rt, it)
    if p is None:
        return None
    n = conc(p.length(rt))
    if isinstance(n, int):
        return None
    return p


def concrete_iter(rt, it):
    """Items of a model sequence whose length turned out concrete, or None."""
    p = proto(rt, it)
    if p is None:
        return None
    n = conc(p.length(rt))
    if not isinstance(n, int):
        return None
    return [p.at(rt, k) for k in range(n)]


def seq_of_iter(rt, sym):
    if isinstance(sym, SSeq):
        return SSeq(sym.n, sym.fn, tuple)
    return SSeq(sym.length(rt), lambda k: sym.at(rt, k), tuple)


def unpack(rt, v, n):
    xs = concrete_iter(rt, v)
    if xs is not None:
        return xs
    p = proto(rt, v)
    if p is not None:
        ln = p.length(rt)
        if rt.truth(compare("==", ln, n)):
            return [p.at(rt, k) for k in range(n)]
        raise PyRaise(ValueError("wrong number of values to unpack"))
    return None


def inplace(rt, op, a, b):
    if isinstance(a, SArr):
        return sarr.inplace(rt, op, a, b)
    f = getattr(a, "m_inplace", None)
    if f is not None:
        return f(rt, op, b)
    return NotImplemented


def truth(rt, v):
    if isinstance(v, (SSeq, SList, SRange)):
        n = conc(v.n)
        if isinstance(n, int):
            return n > 0
        return rt.truth(compare(">", n, 0))
    f = getattr(v, "m_truth", None)
    if f is not None:
        return f(rt)
    return None


def is_model(v):
    return isinstance(v, MODELS) or getattr(v, "model", False) is True


def compare_(rt, op, a, b):
    if isinstance(a, (SArr,)) or isinstance(b, SArr):
        if a is None or b is None:
            return op == "!="
        return sarr.cmp(rt, op, a, b)
    for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
        f = getattr(x, "m_compare", None)
        if f is not None and getattr(x, "model", False):
            return f(rt, o, y)
    if is_model(a) or is_model(b):
        if a is b and op in ("==", "!="):
            return op == "=="
        if op in ("==", "!=") and (a is None or b is None):
            return op == "!="
        if op in ("==", "!=") and isinstance(a, (SSeq, SList, tuple, list)) and isinstance(b, (SSeq, SList, tuple, list)):
            r = seq_eq(rt, a, b)
            return r if op == "==" else (S(z3.Not(r.e)) if isinstance(r, S) else not r)
        raise Unsupported("comparison %s of %r and %r" % (op, a, b))
    return NotImplemented


def seq_eq(rt, a, b):
    """Equality of two sequences of which at least one has symbolic length."""
    if rt.type_of(a) is not rt.type_of(b):
        raise Unsupported("equality of sequences of different types")
    p, q = as_seq_any(rt, a), as_seq_any(rt, b)
    n, m = p.length(rt), q.length(rt)
    c = ctx()
    k = z3.Int(c.name("q"))
    c.pure += 1
    try:
        e = rt.as_bool_term(rt.eq(p.at(rt, S(k)), q.at(rt, S(k))))
    finally:
        c.pure -= 1
    return S(z3.And(zi(n) == zi(m), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(n)), e))))


def contains(rt, c, x):
    f = getattr(c, "m_contains", None)
    if f is not None:
        return f(rt, x)
    xs = concrete_iter(rt, c) if is_model(c) else None
    if xs is not None:
        return rt.contains(xs, x)
    if isinstance(c, SRange) and c.step == 1:
        return S(z3.And(zi(x) >= zi(c.start), zi(x) < zi(c.start) + zi(c.n)))
    if is_model(c):
        raise Unsupported("membership in a symbolic collection")
    return NotImplemented


def binop_model(rt, op, a, b):
    """Operators where an operand is a model array or an abstract matrix."""
    for x, y, left in ((a, b, True), (b, a, False)):
        f = getattr(x, "m_binop", None)
        if f is not None:
            r = f(rt, op, y, left)
            if r is not NotImplemented:
                return r
    if op == "dot":
        if isinstance(a, SArr) or isinstance(b, SArr):
            return dot_sarr(rt, a, b)
        return NotImplemented
    if isinstance(a, SArr) or isinstance(b, SArr):
        if op == "@":
            return dot_sarr(rt, a, b)
        return sarr.binop(rt, op, a, b)
    return NotImplemented


def dot_sarr(rt, a, b):
    """Products whose contracted dimension is concrete."""
    A, B = sarr.as_sarr(rt, a), sarr.as_sarr(rt, b)
    if A.ndim == 0 or B.ndim == 0:
        return sarr.binop(rt, "*", a, b)
    n = A.shape[-1]
    m = B.shape[0] if B.ndim == 1 else B.shape[-2]
    if not isinstance(n, int) or not isinstance(m, int):
        raise Unsupported("contraction over a symbolic dimension")
    if n != m:
        raise PyRaise(ValueError("shapes not aligned"))
    ra, rb = A.reader(), B.reader()
    shape = A.shape[:-1] + (() if B.ndim == 1 else B.shape[:-2] + B.shape[-1:])

    def fn(j):
        ja = tuple(j[:A.ndim - 1])
        jb = tuple(j[A.ndim - 1:])
        acc = 0
        for k in range(n):
            y = rb((k,)) if B.ndim == 1 else rb(jb[:-1] + (k,) + jb[-1:])
            acc = rt.binop("+", acc, rt.binop("*", ra(ja + (k,)), y))
        return acc
    if not shape:
        return fn(())
    return SArr(shape, fn, None)


def binop(rt, op, a, b):
    r = binop_model(rt, op, a, b)
    if r is not NotImplemented:
        return r
    if op == "+" and isinstance(a, (SSeq, SList, tuple, list)) and isinstance(b, (SSeq, SList, tuple, list)) and (is_model(a) or is_model(b)):
        if rt.type_of(a) is not rt.type_of(b):
            raise PyRaise(TypeError("can only concatenate sequences of the same type"))
        return concat(rt, a, b)
    if is_model(a) or is_model(b):
        if (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            raise PyRaise(TypeError("unsupported operand"))
        raise Unsupported("operator %s on %r and %r" % (op, a, b))
    return NotImplemented


def as_seq(rt, a):
    if isinstance(a, (tuple, list)):
        xs = list(a)
        return SSeq(len(xs), lambda k: pick(rt, xs, k), type(a))
    if isinstance(a, SList):
        return a.freeze()
    return a


def pick(rt, xs, k):
    k = conc(k)
    if isinstance(k, int):
        return xs[k]
    return rt.sym_index(tuple(xs), k)


def concat(rt, a, b):
    A, B = as_seq(rt, a), as_seq(rt, b)
    na = A.n
    kind = rt.type_of(a)

    def fn(k):
        c = compare("<", k, na)
        if isinstance(c, bool):
            return A.at(rt, k) if c else B.at(rt, arith("-", k, na))
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return A.at(rt, k)
        if z3.is_false(e):
            return B.at(rt, conc(arith("-", k, na)))
        if ctx().pure:
            x, y = A.at(rt, conc(k)) if not isinstance(na, int) or na != 1 else A.at(rt, 0), B.at(rt, conc(arith("-", k, na)))
            if is_num(x) and is_num(y):
                return ite(S(e), x, y)
            if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(is_num(v) for v in x + y):
                return tuple(ite(S(e), v, w) for v, w in zip(x, y))
        if rt.truth(S(e)):
            return A.at(rt, k)
        return B.at(rt, conc(arith("-", k, na)))
    return SSeq(plus(na, B.n), fn, kind) if kind is tuple else SList(plus(na, B.n), fn)


def join_elts(rt, parts):
    """A display with starred symbolic sequences: the items in order."""
    n, pieces = 0, []
    for x in parts:
        pieces.append((n, x))
        n = plus(n, x.seq.n if isinstance(x, StarArgs) else 1)

    def fn(k):
        def value(q):
            o, x = pieces[q]
            return x.seq.at(rt, conc(arith("-", k, o))) if isinstance(x, StarArgs) else x
        numbers = all(isinstance(x, StarArgs) or is_num(x) for _, x in pieces)
        if numbers and not ctx().pure:
            stars = [q for q, (_, x) in enumerate(pieces) if isinstance(x, StarArgs)]
            if len(stars) > 1 or len(stars) == len(pieces):
                ctx().pure += 1
                try:
                    numbers = is_num(value(stars[0]))
                except Unsupported:
                    numbers = False
                finally:
                    ctx().pure -= 1
        later = []                       # undecided conditions, in a pure context
        r = None
        for q in range(len(pieces) - 1, 0, -1):
            c = compare(">=", k, pieces[q][0])
            e = z3.simplify(c.e) if isinstance(c, S) else z3.BoolVal(bool(c))
            if z3.is_false(e):
                continue
            if z3.is_true(e):
                r = value(q)
                break
            if ctx().pure or numbers:
                later.append((e, q))
            elif rt.truth(S(e)):
                r = value(q)
                break
        if r is None:
            r = value(0)
        for e, q in reversed(later):
            r = ite(e, value(q), r)
        return r
    return SSeq(n, fn, tuple)


def get_item(rt, o, i):
    if isinstance(o, SArr):
        return sarr.get_item(rt, o, i)
    if isinstance(o, FArr):
        i0 = i if isinstance(i, tuple) else (i,)
        if o.lead and all(isinstance(x, int) for x in i0) and len(i0) == len(o.lead):
            i0 = tuple(x % n for x, n in zip(i0, o.lead))
            return FArr((), o.src_n, o.mask, lambda j: o.fn(i0 + tuple(j)), o.kind)
        raise Unsupported("indexing a masked selection")
    if isinstance(o, (SSeq, SList)):
        if isinstance(i, slice):
            a, ln, st = sarr.slice_bounds(rt, i, o.n)
            fn = o.fn
            g = (lambda k: fn(conc(plus(a, k)))) if st == 1 else (lambda k: fn(conc(arith("-", a, k))))
            if isinstance(ln, int):
                xs = [g(k) for k in range(ln)]
                return tuple(xs) if o.pytype is tuple else xs
            return SSeq(ln, g, tuple) if o.pytype is tuple else SList(ln, g)
        if isinstance(i, (int, S)) and not isinstance(i, bool):
            return o.fn(sarr.norm_index(rt, i, o.n))
        if isinstance(i, np.ndarray) and i.ndim == 0:
            return get_item(rt, o, i[()])
        raise PyRaise(TypeError("indices must be integers"))
    if isinstance(o, SRange):
        if isinstance(i, (int, S)):
            return o.at(rt, sarr.norm_index(rt, i, o.n))
        if isinstance(i, slice) and i.step in (-1,) and i.start is None and i.stop is None:
            return SRange(arith("+", o.start, arith("*", arith("-", o.n, 1), o.step)), o.n, -o.step)
    f = getattr(o, "m_get", None)
    if f is not None:
        return f(rt, i)
    if isinstance(o, (tuple, list)) and isinstance(i, SArr):
        raise Unsupported("list indexed by an array")
    if isinstance(o, np.ndarray) and is_model(i):
        raise Unsupported("array indexed by a symbolic collection")
    if is_model(o):
        raise Unsupported("subscript of %r" % (o,))
    return NotImplemented


def set_item(rt, o, i, v):
    if isinstance(o, SArr):
        return sarr.set_item(rt, o, i, v)
    if isinstance(o, SList):
        if isinstance(i, slice):
            a, ln, st = sarr.slice_bounds(rt, i, o.n)
            vs = rt.to_list(v)
            if isinstance(ln, int) and ln == len(vs) and st == 1:
                for k, x in enumerate(vs):
                    o.store(rt, conc(plus(a, k)), x)
                return True
            raise Unsupported("slice store")
        o.store(rt, sarr.norm_index(rt, i, o.n), v)
        return True
    f = getattr(o, "m_set", None)
    if f is not None:
        return f(rt, i, v)
    if isinstance(o, SSeq):
        raise PyRaise(TypeError("object does not support item assignment"))
    if is_model(o):
        raise Unsupported("store into %r" % (o,))
    return False


# -- comprehensions -------------------------------------------------------------------
def snap_env(env):
    """The variables a lazily evaluated body may read, captured now."""
    return env


def comp_fn(rt, gen, node_elts, env, sym):
    """k -> values of node_elts with the target bound to element k (pure)."""
    base = dict(env.vars)

    def fn(k, which):
        e = Env(env.mod, env.parent)
        e.vars = dict(base)
        e.classenv = False
        outer = Env(env.mod, e)
        c = ctx()
        x = sym.at(rt, k)
        c.pure += 1
        try:
            rt.assign(gen.target, x, outer)
            return [rt.eval(n, outer) for n in which]
        except PyRaise as ex:
            raise Unsupported("exception %r in a comprehension over a symbolic-length iterable" % (ex.exc,))
        finally:
            c.pure -= 1
    return fn


def comprehension(rt, node, env, sym, want):
    if len(node.generators) != 1:
        return nested_comprehension(rt, node, env, sym, want)
    g = node.generators[0]
    f = comp_fn(rt, g, [node.elt], env, sym)
    n = sym.length(rt)
    if g.ifs:
        hook = rt.ver.task.uses.get("filter-comprehension") if rt.ver.task else None
        if hook is not None:
            return hook(rt, node, env, sym, want, f)
        if want == "gen" and isinstance(node.elt, ast.AST):
            return FilterSeq(n, lambda k: f(k, [node.elt])[0], lambda k: z3.And(*[rt.as_bool_term(x) for x in f(k, g.ifs)]))
        return FilterSeq(n, lambda k: f(k, [node.elt])[0], lambda k: z3.And(*[rt.as_bool_term(x) for x in f(k, g.ifs)]))
    c = ctx()
    # evaluate the body once at an arbitrary position, so that exceptions are not lost
    if c.pure:
        f(fresh_counter(n), [node.elt])     # no branching here: no assumption that there is such a position
    elif rt.truth(compare(">", n, 0)):
        k0 = fresh_counter(n)
        x = sym.at(rt, k0)
        c.assume(in_range(k0, n))
        try:
            f(k0, [node.elt])
        except Unsupported:
            # not expressible as a pure function: let it be an abstract sequence
            raise
    fn = lambda k: f(k, [node.elt])[0]
    if want == "list":
        return SList(n, fn)
    if want == "set":
        raise Unsupported("set comprehension over a symbolic-length iterable")
    return SIter(SSeq(n, fn, tuple))


def nested_comprehension(rt, node, env, sym, want):
    raise Unsupported("nested comprehension over a symbolic-length iterable")


class FilterSeq(Family):
    pytype = list

    def __init__(self, n, fn, cond):
        self.n, self.fn, self.cond = n, fn, cond


def dict_comprehension(rt, node, env, sym):
    hook = rt.ver.task.uses.get("dict-comprehension") if rt.ver.task else None
    if hook is not None:
        return hook(rt, node, env, sym)
    raise Unsupported("dict comprehension over a symbolic-length iterable")


def enumerate_(rt, s, start):
    return SIter(SSeq(s.length(rt), lambda k: (plus(start, k), s.at(rt, k)), tuple))


def zip_(rt, its, syms):
    ps = [s if s is not None else as_seq(rt, rt.to_list(it)) for s, it in zip(syms, its)]
    n = None
    for p in ps:
        m = p.length(rt)
        if n is None:
            n = m
        elif not sarr.same_dim(rt, n, m):
            c = compare("<", m, n)
            n = ite(c, m, n)
    return SIter(SSeq(n, lambda k: tuple(p.at(rt, k) for p in ps), tuple))


def map_(rt, f, s):
    return SIter(SSeq(s.length(rt), lambda k: rt.call(f, [s.at(rt, k)], {}), tuple))


def reversed_(rt, s):
    n = s.length(rt)
    return SIter(SSeq(n, lambda k: s.at(rt, conc(arith("-", arith("-", n, 1), k))), tuple))


def sorted_(rt, it, key, reverse):
    s = symbolic_iter(rt, it)
    if s is not None:
        hook = rt.ver.task.uses.get("sorted") if rt.ver.task else None
        if hook is not None:
            return hook(rt, s, key, reverse)
        raise Unsupported("sorting a symbolic-length sequence")
    f = getattr(it, "m_sorted", None)
    if f is not None:
        return f(rt, key, reverse)
    xs = rt.to_list(it)
    ks = [x if key is None else rt.call(key, [x], {}) for x in xs]
    rev = rt.truth(reverse)
    out = []
    # stable insertion sort; comparisons may split the path
    for x, kx in zip(xs, ks):
        p = len(out)
        while p > 0:
            ky = out[p - 1][1]
            lt = rt.rich("<", kx, ky) if not rev else rt.rich("<", ky, kx)
            if not rt.truth(lt):
                break
            p -= 1
        out.insert(p, (x, kx))
    return [x for x, _ in out]


def minmax(rt, name, s, key):
    hook = getattr(s, "m_minmax", None)
    if hook is not None:
        return hook(rt, name, key)
    if key is not None:
        raise Unsupported("min/max with key over a symbolic-length sequence")
    n = s.length(rt)
    if not rt.truth(compare(">", n, 0)):
        raise PyRaise(ValueError("empty sequence"))
    return extremum(rt, n, lambda k: s.at(rt, k), name)


def extremum(rt, n, fn, name):
    """Trusted contract of min/max: attained somewhere and a bound everywhere (quantified)."""
    c = ctx()
    w = fresh("i", "argm")
    c.assume(z3.And(w.e >= 0, w.e < zi(n)))
    v = fn(w)
    e = zr(v) if sort_of(z(v)) == "r" else z(v)
    r = S(z3.Const(c.name("ext"), e.sort()))
    c.assume(r.e == e)
    q = z3.Int(c.name("q"))
    c.pure += 1
    try:
        vq = fn(S(q))
    finally:
        c.pure -= 1
    rel = rt.rich("<=" if name == "min" else ">=", r, vq)
    c.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zi(n)), rt.as_bool_term(rel))))
    return r


def sum_(rt, s, start):
    hook = rt.ver.task.uses.get("sum") if rt.ver.task else None
    if hook is not None:
        return hook(rt, s, start)
    raise Unsupported("sum over a symbolic-length sequence")


def quant(rt, s, isall):
    """all()/any(): a fresh truth value with its two defining implications."""
    if isinstance(s, FilterSeq):
        raise Unsupported("all/any over a filtered sequence")
    hook = rt.ver.task.uses.get("quant") if rt.ver.task else None
    if hook is not None:
        r = hook(rt, s, isall)
        if r is not NotImplemented:
            return r
    n = s.length(rt)
    c = ctx()
    q = z3.Int(c.name("q"))
    c.pure += 1
    try:
        v = rt.as_bool_term(s.at(rt, S(q)))
    finally:
        c.pure -= 1
    rng = z3.And(q >= 0, q < zi(n))
    f = z3.ForAll([q], z3.Implies(rng, v)) if isall else z3.Exists([q], z3.And(rng, v))
    return S(f)


def iter_(rt, x):
    p = proto(rt, x)
    return SIter(p)


def next_(rt, x):
    f = getattr(x, "m_next", None)
    if f is not None:
        return f(rt)
    if isinstance(x, SIter):
        seq = x.seq
        n = seq.length(rt)
        rt.ver.note_write(x, None)
        if not rt.truth(compare(">", n, 0)):
            raise PyRaise(StopIteration())
        v = seq.at(rt, 0)
        x.seq = SSeq(arith("-", n, 1), lambda k, seq=seq: seq.at(rt, plus(k, 1)), tuple)
        return v
    return NotImplemented


def length(rt, x):
    if isinstance(x, (SSeq, SList, SRange)):
        return x.n
    if isinstance(x, SArr):
        if not x.shape:
            raise PyRaise(TypeError("len() of unsized object"))
        return x.shape[0]
    f = getattr(x, "m_len", None)
    if f is not None:
        return f(rt)
    if is_model(x):
        raise Unsupported("len of %r" % (x,))
    return NotImplemented


def materialise(rt, s, typ):
    if isinstance(s, FilterSeq):
        return s
    if typ is tuple:
        return seq_of_iter(rt, s)
    q = seq_of_iter(rt, s)
    hook = rt.ver.task.uses.get("list") if rt.ver.task else None
    if hook is not None:
        r = hook(rt, q)
        if r is not None:
            return r
    return SList(q.n, q.fn)


def sym_set(rt, s):
    hook = rt.ver.task.uses.get("set") if rt.ver.task else None
    if hook is not None:
        return hook(rt, s)
    raise Unsupported("set of a symbolic-length iterable")


def sym_dict(rt, s):
    hook = rt.ver.task.uses.get("dict") if rt.ver.task else None
    if hook is not None:
        return hook(rt, s)
    raise Unsupported("dict of a symbolic-length iterable")


def range_(rt, args):
    args = [x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x for x in args]
    for x in args:
        if isinstance(x, (Fraction, float, str, Cx)) or x is None or isinstance(x, S) and sort_of(x.e) == "r":
            raise PyRaise(TypeError("object cannot be interpreted as an integer"))
    args = [conc(x) if isinstance(x, S) else int(x) for x in args]
    if all(isinstance(x, int) for x in args):
        try:
            return range(*args)
        except ValueError as e:
            raise PyRaise(e)
    start, stop, step = (0, args[0], 1) if len(args) == 1 else (args + [1])[:3]
    if step not in (1, -1):
        raise Unsupported("range with a general step")
    bv = any(isinstance(x, S) and sort_of(x.e) == "v" for x in (start, stop))
    c = ctx()
    if bv and step == 1:
        a, b = zbv(start), zbv(stop)
        n = b - a
        if not c.prove_now(z3.ULE(a, b)):
            n = z3.If(z3.ULE(a, b), b - a, z3.BitVecVal(0, BW))
        return SRange(start if isinstance(start, S) else start, S(z3.simplify(n)), 1)
    a, b = zi(start), zi(stop)
    d = z3.simplify(b - a) if step == 1 else z3.simplify(a - b)
    n = conc(S(d))
    if isinstance(n, int):
        n = max(n, 0)
    elif not c.prove_now(d >= 0):
        n = S(z3.If(d >= 0, d, z3.IntVal(0)))
    return SRange(start, n, step)


def call(rt, f, args, kw):
    m = getattr(f, "m_call", None)
    if m is not None:
        return m(rt, args, kw)
    return NotImplemented


def attribute(rt, o, name):
    f = getattr(o, "m_attr", None)
    if f is not None and getattr(o, "model", False):
        return f(rt, name)
    if isinstance(o, SList):
        def m(r, a, k):
            hook = rt.ver.task.uses.get("list-append") if name == "append" and rt.ver.task else None
            if hook is not None:
                return hook(rt, o, a, k)
            if name == "append":
                return o.append(rt, a[0])
            if name == "copy":
                return SList(o.n, o.fn)
            if name == "reverse":
                rt.ver.note_write(o, None)
                fn, n = o.fn, o.n
                o.fn = lambda j: fn(conc(arith("-", arith("-", n, 1), j)))
                return None
            if name == "extend":
                rt.ver.note_write(o, None)
                q = concat(rt, o.freeze(), as_seq_any(rt, a[0]))
                o.n, o.fn = q.n, q.fn
                return None
            hook = rt.ver.task.uses.get("list-" + name) if rt.ver.task else None
            if hook is not None:
                return hook(rt, o, a, k)
            raise Unsupported("list.%s on a symbolic-length list" % name)
        return Native("list." + name, m)
    if isinstance(o, SSeq):
        raise Unsupported("%s of a symbolic sequence" % name)
    if isinstance(o, SArr):
        return sarr_attr(rt, o, name)
    if is_model(o):
        raise Unsupported("attribute %s of %r" % (name, o))
    return NotImplemented


def as_seq_any(rt, v):
    p = proto(rt, v)
    if p is not None:
        return SSeq(p.length(rt), lambda k: p.at(rt, k), list)
    return as_seq(rt, list(rt.iterate(v)))


def sarr_attr(rt, o, name):
    if name == "shape":
        return tuple(o.shape)
    if name == "ndim":
        return o.ndim
    if name == "size":
        n = 1
        for s in o.shape:
            n = arith("*", n, s)
        return n
    if name == "T":
        nd = o.ndim
        prev = o.imap
        return SArr(o.shape[::-1], store=o.store, imap=(lambda j: prev(tuple(j[::-1])) if prev else tuple(j[::-1])))
    if name == "real":
        return sarr.ew(rt, lambda x: cparts(x)[0], o)
    if name == "imag":
        return sarr.ew(rt, lambda x: cparts(x)[1], o)
    if name == "dtype":
        return rt.np.DTypeOf(o)
    if name == "copy":
        return Native("copy", lambda r, a, k: o.copy())
    if name in ("any", "all", "max", "min", "sum", "astype", "dot", "conj", "conjugate", "reshape"):
        def m(r, a, k):
            if name == "reshape":
                return reshape(rt, o, a[0] if len(a) == 1 else tuple(a))
            if name == "dot":
                return dot_sarr(rt, o, a[0])
            if name == "astype":
                return sarr.ew(rt, lambda x: rt.np.cast1(x, a[0]), o, kind=rt.np.dtname(a[0]).replace("u", "v").replace("f", "r"))
            r2 = np_call(rt, name, [o] + list(a), k)
            if r2 is NotImplemented:
                raise Unsupported("ndarray.%s" % name)
            return r2
        return Native(name, m)
    raise Unsupported("ndarray.%s on a symbolic array" % name)


# -- numpy functions on symbolic arrays --------------------------------------------------
def has_model(v, depth=0):
    if is_model(v):
        return True
    if depth < 3 and isinstance(v, (list, tuple)):
        return any(has_model(x, depth + 1) for x in v)
    return False


def np_call(rt, name, args, kw):
    hook = rt.ver.task.uses.get("np." + name) if rt.ver.task else None
    if hook is not None and Ctx.cur is not None:
        r = hook(rt, args, kw)
        if r is not NotImplemented:
            return r
    if name in ("zeros", "ones", "empty") and args or name in ("zeros",) and "shape" in kw:
        shape = args[0] if args else kw["shape"]
        dims = list(shape) if isinstance(shape, (tuple, list)) else [shape]
        dims = [conc(x) for x in dims]
        if all(isinstance(x, int) for x in dims):
            return NotImplemented
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        kind = {"f": "r", "i": "i", "u": "v", "c": "c", "b": "b", None: "r"}[rt.np.dtname(dt)]
        if name == "empty":
            raise Unsupported("uninitialised array")
        v = sarr.coerce(0 if name == "zeros" else 1, kind)
        return SArr(dims, lambda j: v, kind)
    if not has_model(args) and not has_model(list(kw.values())):
        return NotImplemented
    a = args[0] if args else None
    for x in args:
        f = getattr(x, "m_np", None)
        if f is not None:
            r = f(rt, name, args, kw)
            if r is not NotImplemented:
                return r
    if name in ("array", "asarray"):
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        return to_array(rt, a, dt, copy=(name == "array" and rt.truth(kw.get("copy", True))))
    if name in ("abs", "absolute", "sqrt", "sin", "cos", "negative", "conj", "conjugate", "real", "imag", "rint", "floor", "ceil", "isinf", "isnan", "square", "logical_not"):
        if isinstance(a, SArr):
            f = rt.np.namespace(rt, "numpy").attrs[name].fn
            return sarr.ew(rt, lambda x: f(rt, [x], {}), a, kind="b" if name.startswith("is") or name == "logical_not" else None)
    if name in ("minimum", "maximum"):
        nm = name[:3]
        return sarr.ew(rt, lambda x, y: rt.np.minmax_l(rt, [x, y], nm), args[0], args[1])
    if name in ("all", "any") and isinstance(a, SArr):
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        return quant_arr(rt, a, axis, name == "all")
    if name in ("min", "max", "amin", "amax") and isinstance(a, SArr):
        axis = kw.get("axis", args[1] if len(args) > 1 else None)
        return red_arr(rt, a, axis, name[-3:], kw.get("initial"))
    if name in ("dot", "matmul"):
        args = [to_array(rt, x, None) if isinstance(x, (SList, SSeq)) else x for x in args]
        r = binop_model(rt, "dot", args[0], args[1])
        if r is not NotImplemented:
            return r
    if name in ("add", "subtract", "multiply", "divide", "bitwise_xor", "bitwise_and", "bitwise_or", "left_shift", "right_shift"):
        op = {"add": "+", "subtract": "-", "multiply": "*", "divide": "/", "bitwise_xor": "^", "bitwise_and": "&", "bitwise_or": "|", "left_shift": "<<", "right_shift": ">>"}[name]
        return binop_model(rt, op, args[0], args[1])
    if name == "norm" and isinstance(a, SArr):
        axis = kw.get("axis", args[2] if len(args) > 2 else None)
        if axis is not None and a.ndim == 2 and int(axis) % 2 == 1 and isinstance(a.shape[1], int):
            rd, m = a.reader(), a.shape[1]

            def fn(j):
                return norm_term(rt, [rd((j[0], q)) for q in range(m)])
            return SArr(a.shape[:1], fn, "r")
    if name == "reshape" and isinstance(a, SArr):
        return reshape(rt, a, args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape")))
    if name == "zeros_like" and isinstance(a, SArr):
        kind = a.kind
        v = sarr.coerce(0, kind or "r")
        return SArr(a.shape, lambda j: v, kind)
    if name == "copy" and isinstance(a, SArr):
        return a.copy()
    raise Unsupported("numpy.%s on a symbolic-shape value" % name)


def reshape(rt, a, shape):
    """Row-major reshapes that join leading dimensions, all but the first of them concrete."""
    shape = [conc(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))]
    k = 0
    while k < min(len(shape) - 1, a.ndim - 1) and isinstance(shape[-1 - k], int) and shape[-1 - k] == a.shape[-1 - k] != -1:
        k += 1
    lead = a.shape[:a.ndim - k]
    if len(shape) - k != 1 or not all(isinstance(x, int) for x in lead[1:]):
        raise Unsupported("reshape of a symbolic array")
    m = 1
    for x in lead[1:]:
        m *= x
    n = conc(arith("*", lead[0], m))
    if shape[0] != -1 and not sarr.same_dim(rt, shape[0], n):
        raise PyRaise(ValueError("cannot reshape array"))
    rd, nl = a.reader(), len(lead)

    def fn(j):
        r, idx = j[0], []
        for x in reversed(lead[1:]):
            e = zi(r)
            idx.append(conc(S(z3.simplify(e % x))) if x != 1 else 0)
            r = conc(S(z3.simplify(e / x))) if x != 1 else r
        return rd((r,) + tuple(reversed(idx)) + tuple(j[1:]))
    return SArr((n,) + a.shape[a.ndim - k:], fn, a.kind)


NORM = {}


def norm_term(rt, xs):
    """Euclidean norm as a term: NORMn(x..), with its defining facts assumed on use."""
    n = len(xs)
    es = [zr(x) for x in xs]
    if n not in NORM:
        NORM[n] = z3.Function("norm%d" % n, *([z3.RealSort()] * (n + 1)))
    t = NORM[n](*es)
    s = None
    for e in es:
        s = e * e if s is None else s + e * e
    if not ctx().data.get("norm-opaque"):
        ctx().assume(z3.And(t >= 0, t * t == s))
    return S(t)


def quant_arr(rt, a, axis, isall):
    rd = a.reader()
    c = ctx()
    if axis is not None:
        axis = int(axis) % a.ndim
        if a.ndim == 2 and isinstance(a.shape[axis], int):
            m = a.shape[axis]
            def fn(j):
                ts = [rt.as_bool_term(rd((j[0], q) if axis == 1 else (q, j[0]))) for q in range(m)]
                return S(z3.And(*ts) if isall else z3.Or(*ts))
            return SArr((a.shape[1 - axis],), fn, "b")
        raise Unsupported("all/any along a symbolic axis")
    qs, rng, idx = [], [], []
    for s in a.shape:
        if isinstance(s, int):
            idx.append(None)
        else:
            q = z3.Int(c.name("q"))
            qs.append(q)
            rng.append(z3.And(q >= 0, q < zi(s)))
            idx.append(S(q))
    import itertools
    c.pure += 1
    try:
        ts = []
        for combo in itertools.product(*[range(s) if isinstance(s, int) else [None] for s in a.shape]):
            j = tuple(k if k is not None else idx[d] for d, k in enumerate(combo))
            ts.append(rt.as_bool_term(rd(j)))
    finally:
        c.pure -= 1
    if isall:
        body = z3.Implies(z3.And(*rng), z3.And(*ts))
        return S(z3.ForAll(qs, body) if qs else z3.And(*ts))
    body = z3.And(*(rng + [z3.Or(*ts)]))
    return S(z3.Exists(qs, body) if qs else z3.Or(*ts))


def red_arr(rt, a, axis, name, initial):
    rd = a.reader()
    if axis is not None:
        axis = int(axis) % a.ndim
    if a.ndim == 1:
        n = a.shape[0]
        if initial is not None:
            raise Unsupported("min/max with initial on a symbolic array")
        if not rt.truth(compare(">", n, 0)):
            raise PyRaise(ValueError("zero-size array to reduction operation"))
        return extremum(rt, n, lambda k: rd((k,)), name)
    if a.ndim == 2 and axis is not None and isinstance(a.shape[1 - axis], int):
        out = []
        for q in range(a.shape[1 - axis]):
            col = SArr((a.shape[axis],), (lambda j, q=q: rd((j[0], q) if axis == 0 else (q, j[0]))), a.kind)
            out.append(red_arr(rt, col, None, name, initial))
        return rt.np.build(rt, out)
    raise Unsupported("reduction of a symbolic array")


def to_array(rt, v, dt, copy=True):
    kind = {"f": "r", "i": "i", "u": "v", "c": "c", "b": "b", None: None}[rt.np.dtname(dt)]
    if isinstance(v, SArr):
        if not copy and dt is None:
            return v
        r = v.reader()
        if kind is None:
            return sarr.concretise(rt, SArr(v.shape, r, v.kind))
        return sarr.concretise(rt, SArr(v.shape, lambda j: rt.np.cast1(r(j), dt), kind))
    if isinstance(v, FilterSeq):
        raise Unsupported("array of a filtered sequence")
    p = proto(rt, v)
    if p is not None and not isinstance(v, SIter):
        n = p.length(rt)
        k = fresh_counter(n)
        c = ctx()
        c.pure += 1
        try:
            sample = p.at(rt, 0 if not isinstance(conc(n), S) and conc(n) > 0 else k)
        finally:
            c.pure -= 1
        if is_num(sample):
            return SArr((n,), lambda j: cast(rt, p.at(rt, j[0]), dt), kind)
        if isinstance(sample, (list, tuple)) and all(is_num(x) for x in sample):
            m = len(sample)

            def fn(j):
                row = p.at(rt, j[0])
                q = conc(j[1])
                return cast(rt, row[q] if isinstance(q, int) else pick(rt, list(row), q), dt)
            return SArr((n, m), fn, kind)
        if isinstance(sample, np.ndarray) and sample.ndim == 1:
            m = sample.shape[0]
            return SArr((n, m), lambda j: cast(rt, p.at(rt, j[0])[conc(j[1])], dt), kind)
    raise Unsupported("array of %r" % (v,))


def cast(rt, x, dt):
    if dt is None:
        return x
    if rt.np.dtname(dt) == "u":
        if isinstance(x, S) and sort_of(x.e) == "i":
            # Python int -> uint64: exact for 0 <= x < 2**64
            return S(zbv(x))
    return rt.np.cast1(x, dt)


def elementwise(rt, op, v):
    if isinstance(v, SArr):
        if op == "abs":
            return sarr.ew(rt, lambda x: rt.np.abs_(rt, x), v)
        if op == "neg":
            return sarr.ew(rt, lambda x: rt.np.negate(rt, x), v)
        return sarr.ew(rt, lambda x: rt.np.invert(rt, x), v, kind=v.kind)
    f = getattr(v, "m_unary", None)
    if f is not None:
        return f(rt, op)
    if is_model(v):
        raise Unsupported("%s of %r" % (op, v))
    return NotImplemented


def scipy_namespace(rt, name):
    hook = SCIPY.get(name)
    if hook is not None:
        return hook(rt)
    return None


SCIPY = {}


def product_(rt, a, rep):
    hook = rt.ver.task.uses.get("itertools.product") if rt.ver.task else None
    if hook is not None:
        return hook(rt, a, rep)
    raise Unsupported("itertools.product over symbolic collections")


def combinations_(rt, it, n):
    hook = rt.ver.task.uses.get("itertools.combinations") if rt.ver.task else None
    if hook is not None:
        return hook(rt, it, n)
    raise Unsupported("itertools.combinations over symbolic collections")


def chain_(rt, a):
    hook = rt.ver.task.uses.get("itertools.chain") if rt.ver.task else None
    if hook is not None:
        return hook(rt, a)
    if len(a) >= 1 and not any(isinstance(x, StarArgs) for x in a):
        acc = as_seq_any(rt, a[0])
        for x in a[1:]:
            acc = as_seq(rt, concat(rt, acc, as_seq_any(rt, x)))
        return SIter(acc)
    raise Unsupported("itertools.chain over symbolic collections")


# -- loops -------------------------------------------------------------------------------
def zero_like(n):
    if isinstance(n, S) and sort_of(n.e) == "v":
        return S(z3.BitVecVal(0, BW))
    return 0


def fresh_counter(n):
    if isinstance(n, S) and sort_of(n.e) == "v":
        return fresh("v", "k")
    return fresh("i", "k")


def in_range(k, n):
    if isinstance(k.e, z3.BitVecRef):
        return z3.ULT(k.e, zbv(n))
    return z3.And(k.e >= 0, k.e < zi(n))


def nonneg(n):
    if isinstance(n, S) and sort_of(n.e) == "v":
        return z3.BoolVal(True)
    return zi(n) >= 0


def positive(n):
    if isinstance(n, S) and sort_of(n.e) == "v":
        return z3.UGT(n.e, 0)
    return zi(n) > 0


def kind_of(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, Fraction):
        return "r"
    if isinstance(v, S):
        return sort_of(v.e)
    if isinstance(v, Cx):
        return "c"
    f = getattr(v, "m_kind", None)
    if f is not None:
        return f()
    if v is None or isinstance(v, (str, PyClass, Func, Obj, type)):
        return ("same", id(v) if not isinstance(v, str) else v)
    if isinstance(v, SArr):
        return ("arr", v.kind, v.ndim)
    if isinstance(v, tuple):
        return ("tuple",) + tuple(kind_of(x) for x in v)
    if isinstance(v, np.ndarray):
        return ("nd", v.shape)
    if isinstance(v, SList):
        return "slist"
    return None


def havoc(rt, v, name):
    k = kind_of(v)
    f = getattr(v, "m_havoc", None)
    if f is not None:
        return f(rt, name)
    if k in ("b", "i", "r", "v"):
        return fresh(k, name)
    if k == "c":
        return Cx(fresh("r", name), fresh("r", name))
    if isinstance(v, tuple):
        return tuple(havoc(rt, x, name) for x in v)
    if isinstance(v, np.ndarray):
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            out[i] = havoc(rt, v[i], name)
        return out
    if isinstance(k, tuple) and k[0] == "same":
        return v          # kind check demands the same object after the body
    if isinstance(v, SArr) and v.kind in ("v", "i", "r", "b"):
        return fresh_arr(v.shape, v.kind, name)
    raise Unsupported("loop-carried variable %s of an unsupported kind (%r)" % (name, type(v).__name__))


def fresh_arr(shape, kind, name):
    srt = {"v": z3.BitVecSort(BW), "i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[kind]
    f = z3.Function(ctx().name(name), *([z3.IntSort()] * len(shape) + [srt]))
    return SArr(shape, lambda j: S(f(*[zi(x) for x in j])), kind)


def check_kind(rt, a, b, name):
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or ka != kb:
        raise Unsupported("loop-carried variable %s changes its kind (%s -> %s)" % (name, ka, kb))


def is_mutable(o):
    return isinstance(o, (SList, Store, SArr, SIter)) or getattr(o, "mutable", False)


def storage(o):
    if isinstance(o, SArr):
        return o.store
    if isinstance(o, np.ndarray):
        while isinstance(o.base, np.ndarray):
            o = o.base
        return o
    return o


def heap_snapshot(rt, o, attr):
    f = getattr(o, "m_snapshot", None)
    if f is not None:
        return f(rt)
    if isinstance(o, Obj):
        return o.attrs.get(attr)
    if isinstance(o, Store):
        return o.fn
    if isinstance(o, SList):
        return (o.n, o.fn)
    if isinstance(o, np.ndarray):
        return o.copy()
    f = getattr(o, "m_snapshot", None)
    if f is not None:
        return f(rt)
    if isinstance(o, PDict):
        return list(o.items_)
    raise Unsupported("loop modifies a %s" % type(o).__name__)


def heap_havoc(rt, o, attr, snap):
    if getattr(o, "m_heap_havoc", None) is not None:
        o.m_heap_havoc(rt, snap)
    elif isinstance(o, Obj):
        o.attrs[attr] = havoc(rt, snap, attr)
    elif isinstance(o, Store):
        if o.kind not in ("v", "i", "r", "b"):
            raise Unsupported("loop writes an array of unknown element kind")
        srt = {"v": z3.BitVecSort(BW), "i": z3.IntSort(), "r": z3.RealSort(), "b": z3.BoolSort()}[o.kind]
        name = ctx().name("mem")
        fs = {}

        def fn(j):
            n = len(j)
            if n not in fs:
                fs[n] = z3.Function("%s_%d" % (name, n), *([z3.IntSort()] * n + [srt]))
            return S(fs[n](*[zi(x) for x in j]))
        o.fn = fn
    elif isinstance(o, np.ndarray):
        for i in np.ndindex(*o.shape):
            o[i] = havoc(rt, snap[i], "mem")
    elif isinstance(o, SList):
        h = rt.ver.task.uses.get("havoc-list")
        if h is None:
            raise Unsupported("loop modifies a list and the contract gives no element model")
        h(rt, o, snap)
    elif getattr(o, "m_heap_havoc", None) is not None:
        o.m_heap_havoc(rt, snap)
    else:
        raise Unsupported("loop modifies a %s" % type(o).__name__)


def default_invariants(loop):
    """Facts worth trying for every loop."""
    out = []
    for n, v in loop.entry.items():
        k = kind_of(v)
        if k in ("kobj", "abstype"):
            out.append(("%s unchanged" % n, lambda st, n=n, v=v: st.loop.rt.eq(st[n], v)))
        if k in ("b", "i", "r", "v"):
            def same(st, n=n, v=v):
                r = compare("==", st[n], v)
                return r
            out.append(("%s unchanged" % n, same))
            if k == "i":
                out.append(("%s counts up" % n, lambda st, n=n, v=v: compare("==", st[n], arith("+", v, arith("-", st.k, st.loop.first))) if not (isinstance(st.k, S) and sort_of(st.k.e) == "v") else None))
                out.append(("%s is at least its initial value" % n, lambda st, n=n, v=v: compare(">=", st[n], v)))
    return out


compare_seq = compare_


def compare(op, a, b=None, *rest):
    # numeric comparison inside this module; Interp calls it with (rt, op, a, b)
    if rest:
        return compare_(op, a, b, rest[0])
    from .sym import compare as cmp_
    return cmp_(op, a, b)
