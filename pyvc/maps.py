"""Dictionaries, sets and lists of symbolic size, and abstract objects used as their elements."""
import z3

from .sym import S, Unsupported, PyRaise, compare, fresh, ctx, zi, sort_of, is_num, tobool, ite, arith
from .interp import Native

I, B = z3.IntSort(), z3.BoolSort()
ISA = z3.Function("is_instance_of", I, I, B)
TYPEOF = z3.Function("type_code", I, I)


class AbsType:
    """An unknown class, by code."""
    model = True
    pytype = type

    def __init__(self, t):
        self.t = t

    def m_compare(self, rt, op, o):
        if isinstance(o, AbsType) and op in ("==", "!="):
            return S(self.t == o.t if op == "==" else self.t != o.t)
        if op in ("==", "!="):
            return op == "!="
        raise Unsupported("comparison of types")

    def m_kind(self):
        return "abstype"

    def m_havoc(self, rt, name):
        return AbsType(fresh("i", name).e)

    def isinstance_(self, rt, v):
        if isinstance(v, KObj):
            return S(ISA(v.t, self.t))
        raise Unsupported("isinstance of %r with an unknown class" % (v,))


class KObj:
    """An arbitrary hashable object: the code stands for its equality class."""
    model = True

    def __init__(self, t):
        self.t = z3.simplify(t)

    @property
    def pytype(self):
        ctx().assume(ISA(self.t, TYPEOF(self.t)))
        return AbsType(TYPEOF(self.t))

    def m_compare(self, rt, op, o):
        if op in ("==", "!="):
            if not isinstance(o, KObj):
                return op == "!="
            return S(self.t == o.t if op == "==" else self.t != o.t)
        raise Unsupported("ordering of arbitrary objects")

    def m_kind(self):
        return "kobj"

    def m_havoc(self, rt, name):
        return KObj(fresh("i", name).e)

    def m_hash(self, rt):
        return S(z3.Function("hash_code", I, I)(self.t))

    def __repr__(self):
        return "<object %s>" % self.t


def enc(k):
    """The term that stands for a key."""
    if isinstance(k, KObj):
        return k.t
    if isinstance(k, bool):
        return z3.IntVal(int(k))
    if isinstance(k, int):
        return z3.IntVal(k)
    if isinstance(k, S) and sort_of(k.e) in ("i", "v"):
        return zi(k)
    raise Unsupported("a key %r of a symbolic dictionary" % (k,))


class SMap:
    """dict: has(term), val(term), and the keys in insertion order."""
    model = True
    mutable = True

    def __init__(self, pytype=dict):
        self.pytype = pytype
        self.n = 0
        self.key = lambda j: None
        self.has = lambda t: z3.BoolVal(False)
        self.val = lambda t: None

    def state(self):
        return (self.n, self.key, self.has, self.val)

    def set_state(self, s):
        self.n, self.key, self.has, self.val = s

    def copy(self):
        m = SMap(self.pytype)
        m.set_state(self.state())
        return m

    # protocol used by the interpreter
    def m_len(self, rt):
        return self.n

    def m_truth(self, rt):
        return rt.truth(compare(">", self.n, 0))

    def m_contains(self, rt, k):
        return S(self.has(enc(k)))

    def m_get(self, rt, k):
        t = enc(k)
        if rt.truth(S(self.has(t))):
            return self.val(t)
        raise PyRaise(KeyError("key"))

    def m_set(self, rt, k, v):
        rt.ver.note_write(self, None)
        t = enc(k)
        has, val, key, n = self.has, self.val, self.key, self.n
        new = not rt.truth(S(has(t)))
        self.val = lambda x: pick(rt, x == t, v, val(x))
        if new:
            self.has = lambda x: z3.Or(x == t, has(x))
            self.key = lambda j: pick(rt, zi(j) == zi(n), k, key(j))
            self.n = arith("+", n, 1)
        return True

    def m_del(self, rt, k):
        raise Unsupported("deletion from a symbolic dictionary")

    def sym_iter(self, rt):
        from .seqs import SSeq
        return SSeq(self.n, self.key, tuple)

    def m_attr(self, rt, name):
        if name in ("keys", "values", "items"):
            return Native(name, lambda r, a, k: SView(self, name))
        if name == "get":
            def get(r, a, k):
                t = enc(a[0])
                d = a[1] if len(a) > 1 else k.get("default")
                return self.val(t) if rt.truth(S(self.has(t))) else d
            return Native(name, get)
        if name == "copy":
            return Native(name, lambda r, a, k: self.copy())
        if name == "setdefault":
            def setdefault(r, a, k):
                t = enc(a[0])
                if not rt.truth(S(self.has(t))):
                    self.m_set(rt, a[0], a[1] if len(a) > 1 else None)
                return self.val(t)
            return Native(name, setdefault)
        raise Unsupported("dict.%s on a symbolic dictionary" % name)

    def m_snapshot(self, rt):
        return self.state()

    def m_heap_havoc(self, rt, snap):
        h = rt.ver.task.uses.get("havoc-map")
        if h is None:
            raise Unsupported("loop modifies a dictionary and the contract gives no element model")
        h(rt, self, snap)


class SView:
    """keys(), values() or items() of a symbolic dictionary (live)."""
    model = True

    def __init__(self, m, kind):
        self.m, self.kind = m, kind
        self.pytype = {"keys": type({}.keys()), "values": type({}.values()), "items": type({}.items())}[kind]

    def m_len(self, rt):
        return self.m.n

    def m_contains(self, rt, k):
        if self.kind == "keys":
            return self.m.m_contains(rt, k)
        raise Unsupported("membership in a dictionary view")

    def sym_iter(self, rt):
        from .seqs import SSeq
        m = self.m
        if self.kind == "keys":
            return SSeq(m.n, m.key, tuple)
        if self.kind == "values":
            return SSeq(m.n, lambda j: m.val(enc(m.key(j))), tuple)

        def item(j):
            k = m.key(j)
            return (k, m.val(enc(k)))
        return SSeq(m.n, item, tuple)


def pick(rt, cond, a, b):
    if b is None:
        return a
    if a is None:
        return b
    c = z3.simplify(cond)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, KObj) and isinstance(b, KObj):
        return KObj(z3.If(c, a.t, b.t))
    if is_num(a) and is_num(b):
        return ite(S(c), a, b)
    if a is b:
        return a
    return a if rt.truth(S(c)) else b
