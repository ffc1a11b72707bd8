"""C06: IndexTable, for any number of arbitrary objects."""
from .base import *
from pyvc.seqs import SSeq, SIter, SList
from pyvc.interp import PDict
from pyvc.maps import SMap, KObj, AbsType, ISA, TYPEOF, enc

IT = "HamiltonianPy.indextable"
I = z3.IntSort()
OBJ = z3.Function("OBJ", I, I)          # code of the k-th object


def new_map(rt):
    return SMap()


def havoc_map(rt, m, snap):
    """After some iterations: anything; values and keys are objects or integers as they are now."""
    n0, key0, has0, val0 = snap
    c = Ctx.cur
    D = z3.Function(c.name("has"), I, z3.BoolSort())
    V = z3.Function(c.name("val"), I, I)
    K = z3.Function(c.name("key"), I, I)
    kk, vk = m.kinds
    mk = lambda kind, t: KObj(t) if kind == "o" else S(t)
    m.n = fresh("i", "size")
    m.has = lambda t: D(t)
    m.val = lambda t: mk(vk, V(t))
    m.key = lambda j: mk(kk, K(zi(j)))


def tasks():
    out = []

    def T(name, fn, functions, **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), [IT + ".IndexTable." + f for f in functions], modules=[IT],
                        uses={"new-dict": new_map, "havoc-map": havoc},
                        assumes=["an object is its equality class (hash and == of the objects agree, see C07)",
                                 "dict/OrderedDict: membership, lookup, insertion order"], invariants=inv, **kw))
        out[-1].branch_ms = 400

    def havoc(rt, m, snap):
        # what the keys and values are is read off the first iteration
        n0, key0, has0, val0 = snap
        if not hasattr(m, "kinds"):
            k = key0(0)
            if k is None:
                rt.ver.peel_now("cannot tell what the dictionary holds")
            m.kinds = ("o" if isinstance(k, KObj) else "i", "o" if isinstance(val0(enc(k)), KObj) else "i")
        havoc_map(rt, m, snap)

    def inv(loop):
        c = Ctx.cur
        if "start" not in c.data:
            return []
        start = zi(c.data["start"])
        res = []
        if "odd" in c.data:
            res.append(("the object of another type is still to come", lambda st: c.data["odd"] >= zi(st.k)))
        for (path, attr), (m, snap) in loop.heap.items():
            if not isinstance(m, SMap):
                continue
            q = z3.Int("q")

            def size(st, m=m):
                return eqz(m.n, st.k)

            def o2i(st, m=m):
                k = zi(st.k)
                V = lambda t: zi(m.val(t))
                if not isinstance(m.key(0), (KObj, type(None))):
                    return None
                x = z3.Int("x")
                return And(z3.ForAll([q], Implies(And(q >= 0, q < k), And(m.has(OBJ(q)), V(OBJ(q)) == start + q, enc(m.key(S(q))) == OBJ(q))), patterns=[OBJ(q)]),
                           z3.ForAll([x], Implies(m.has(x), And(V(x) >= start, V(x) < start + k, OBJ(V(x) - start) == x))))

            def i2o(st, m=m):
                k = zi(st.k)
                if isinstance(m.key(0), KObj):
                    return None
                x = z3.Int("x")
                return And(z3.ForAll([q], Implies(And(q >= 0, q < k), enc(m.key(S(q))) == start + q)),
                           z3.ForAll([x], And(m.has(x) == And(x >= start, x < start + k), Implies(m.has(x), enc(m.val(x)) == OBJ(x - start)))))
            res += [("size of the dictionary %s" % (path,), size), ("objects to indices %s" % (path,), o2i), ("indices to objects %s" % (path,), i2o)]
        return res

    def arg(h):
        n = h.int("N")
        h.requires(n.e >= 1)
        seq = SSeq(n, lambda k: KObj(OBJ(zi(k))), tuple)
        a = h.choose(["tuple", "iterator"], "arg")
        start = h.choose([0, None], "start")
        kw = {}
        if start is None:
            start = h.int("start")
            kw = {"start": start}
        h.c.data["start"] = start
        return n, (seq if a == "tuple" else SIter(seq)), start, kw

    q1, q2 = z3.Ints("q1 q2")

    def distinct(n):
        return z3.ForAll([q1, q2], Implies(And(q1 >= 0, q1 < q2, q2 < n.e), OBJ(q1) != OBJ(q2)))

    def one_type(n):
        return z3.ForAll([q1], Implies(And(q1 >= 0, q1 < n.e), ISA(OBJ(q1), TYPEOF(OBJ(0)))))

    def build(h):
        n, a, start, kw = arg(h)
        h.requires(And(distinct(n), one_type(n)))
        t = h.ensure_ok("distinct objects of one type give a table", h.outcome(h.get(IT, "IndexTable"), a, **kw))
        return n, start, t

    def check(h, n, start, t, k, tag=""):
        """the table, at the arbitrary position k"""
        obj = KObj(OBJ(k.e))
        idx = h.ensure_ok("known object found" + tag, h.outcome(lambda: h.call(t, obj)))
        h.ensure("table(object k) = start + k" + tag, eqz(idx, add(start, k)))
        idx = h.ensure_ok("query_index" + tag, h.outcome(lambda: h.meth(t, "query_index", obj)))
        h.ensure("query_index(object k) = start + k" + tag, eqz(idx, add(start, k)))
        o = h.ensure_ok("known index found" + tag, h.outcome(lambda: h.meth(t, "query_object", add(start, k))))
        h.ensure("query_object(start + k) = object k" + tag, h.eq(o, obj) if isinstance(o, KObj) else False)
        h.ensure("len" + tag, eqz(h.call(h.rt.builtins["len"], t), n))
        for what, want in (("items", lambda: (add(start, k), obj)), ("indices", lambda: add(start, k)), ("objects", lambda: obj)):
            it = h.call(h.rt.builtins["iter"], t) if what == "items" else h.meth(t, what)
            sym = h.rt.seqs.symbolic_iter(h.rt, it)
            if sym is None:
                h.fail("%s is not an iteration over the table%s" % (what, tag))
                continue
            held = isinstance(it, (SMap, PDict, SList, list)) and any(x is it for x in t.attrs.values())
            h.ensure("%s does not hand out the storage of the table%s" % (what, tag), z3.BoolVal(not held))
            h.ensure("length of %s%s" % (what, tag), eqz(sym.length(h.rt), n))
            got, w = sym.at(h.rt, k), want()
            if what == "items":
                ok = isinstance(got, tuple) and len(got) == 2 and is_num(got[0]) and isinstance(got[1], KObj)
                h.ensure("k-th pair of the iteration" + tag, And(eqz(got[0], w[0]), h.eq(got[1], obj)) if ok else False)
            else:
                h.ensure("k-th of %s%s" % (what, tag), h.eq(got, w) if isinstance(got, KObj) == isinstance(w, KObj) else False)

    def position(h, n):
        k = h.int("k")
        h.requires(And(k.e >= 0, k.e < n.e))
        return k

    def table(h):
        n, start, t = build(h)
        k = position(h, n)
        check(h, n, start, t, k)
        h.ensure("object_type is the type of the objects", h.eq(h.attr(t, "object_type"), AbsType(TYPEOF(OBJ(0)))))
    T("a table of N distinct objects", table, ["__init__", "__call__", "__len__", "__iter__", "query_index", "query_object", "indices", "objects", "object_type"])

    def misses(h, w):
        n, start, t = build(h)
        if w == "unknown object":
            x = h.int("x")
            h.requires(And(ISA(x.e, TYPEOF(OBJ(0))), z3.ForAll([q1], Implies(And(q1 >= 0, q1 < n.e), OBJ(q1) != x.e))))
            h.ensure_raises("an unknown object raises KeyError", h.outcome(lambda: h.meth(t, "query_index", KObj(x.e))), "KeyError")
        elif w == "wrong type":
            x = h.int("x")
            h.requires(Not(ISA(x.e, TYPEOF(OBJ(0)))))
            h.ensure_raises("an object of another type raises TypeError", h.outcome(lambda: h.call(t, KObj(x.e))), "TypeError")
        elif w == "index outside":
            x = h.int("x")
            h.requires(Or(x.e < zi(start), x.e >= zi(start) + n.e))
            h.ensure_raises("an unknown index raises KeyError", h.outcome(lambda: h.meth(t, "query_object", x)), "KeyError")
        else:
            bad = h.choose([None, "0", Fraction(1), (0,)], "bad")
            h.ensure_raises("a non-integer index raises TypeError", h.outcome(lambda: h.meth(t, "query_object", bad)), "TypeError")
        # the miss changed nothing
        check(h, n, start, t, position(h, n), " after the miss")
    for w in ("unknown object", "wrong type", "index outside", "no index"):
        T("queries that miss raise and change nothing: " + w, lambda h, w=w: misses(h, w), ["query_index", "query_object"])

    def duplicate(h):
        n, a, start, kw = arg(h)
        h.requires(one_type(n))
        i, j = h.int("i"), h.int("j")
        h.requires(And(i.e >= 0, i.e < j.e, j.e < n.e, OBJ(i.e) == OBJ(j.e)))
        h.ensure_raises("duplicates raise ValueError", h.outcome(h.get(IT, "IndexTable"), a, **kw), "ValueError")
    T("duplicate objects", duplicate, ["__init__"])

    def mixed(h):
        n, a, start, kw = arg(h)
        h.requires(distinct(n))
        j = h.int("j")
        h.c.data["odd"] = j.e
        h.requires(And(j.e >= 0, j.e < n.e, Not(ISA(OBJ(j.e), TYPEOF(OBJ(0))))))
        h.ensure_raises("mixed types raise TypeError", h.outcome(h.get(IT, "IndexTable"), a, **kw), "TypeError")
    T("objects of different types", mixed, ["__init__"])
    return out
