"""Arrays whose shape is symbolic: lazily evaluated index -> value maps.

A Store holds the current contents as a function of the index; writes replace
that function, so views (SArr with an index map) see every write, exactly like
numpy views.  Element-wise results capture the contents at creation.
"""
from fractions import Fraction

import numpy as np
import z3

from .sym import (S, Cx, Unsupported, PyRaise, arith, compare, ite, fresh, is_num, ctx, z, zi, zr, zbv, sort_of,
                  tobool, cparts, BW)


class Store:
    model = True

    def __init__(self, fn, kind=None):
        self.fn = fn
        self.kind = kind      # 'v' 'i' 'r' 'c' 'b' or None


def conc(n):
    """A concrete int if the size is one."""
    if isinstance(n, S):
        e = z3.simplify(n.e)
        if z3.is_int_value(e) or z3.is_bv_value(e):
            return e.as_long()
        return n
    return int(n)


def same_dim(rt, a, b):
    a, b = conc(a), conc(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    r = compare("==", a, b)
    e = z3.simplify(r.e) if isinstance(r, S) else r
    if e is True or (isinstance(e, z3.ExprRef) and z3.is_true(e)):
        return True
    return ctx().prove_now(e)


class SArr:
    model = True
    pytype = np.ndarray
    __array_priority__ = 1000

    def __init__(self, shape, fn=None, kind=None, store=None, imap=None):
        self.shape = tuple(conc(s) for s in shape)
        self.store = store if store is not None else Store(fn, kind)
        self.imap = imap

    @property
    def kind(self):
        return self.store.kind

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        if self.imap is not None:
            idx = self.imap(idx)
        return self.store.fn(idx)

    def reader(self):
        fn, im = self.store.fn, self.imap
        if im is None:
            return fn
        return lambda idx: fn(im(idx))

    def put(self, rt, idx, v):
        if self.imap is not None:
            idx = self.imap(idx)
        rt.ver.note_write(self.store, None)
        v = coerce(v, self.store.kind)
        old = self.store.fn
        self.store.fn = lambda j, old=old, idx=idx, v=v: ite(same_index(j, idx), v, old(j))

    def copy(self):
        return SArr(self.shape, self.reader(), self.kind)

    def __repr__(self):
        return "<SArr %s %s>" % (self.shape, self.kind)


def same_index(a, b):
    fs = []
    for x, y in zip(a, b):
        r = compare("==", x, y)
        fs.append(r.e if isinstance(r, S) else z3.BoolVal(bool(r)))
    return z3.And(*fs) if fs else z3.BoolVal(True)


def coerce(v, kind):
    if kind is None:
        return v
    if kind == "v":
        return S(zbv(v))
    if kind == "i":
        if isinstance(v, (S,)):
            k = sort_of(v.e)
            if k == "r":
                raise Unsupported("real stored in an integer array")
            return S(zi(v)) if k in ("b", "v") else v
        return int(v)
    if kind == "r":
        if isinstance(v, Cx):
            raise Unsupported("complex stored in a real array")
        return S(zr(v)) if isinstance(v, S) else Fraction(v)
    if kind == "c":
        re, im = cparts(v)
        return Cx(re, im)
    if kind == "b":
        if isinstance(v, S):
            return S(v.e if sort_of(v.e) == "b" else v.e != 0)
        return bool(v)
    return v


def norm_index(rt, i, n):
    """Python index -> non-negative index, IndexError outside."""
    if isinstance(i, bool):
        i = int(i)
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise(IndexError("index out of bounds"))
        return i + n if i < 0 else i
    if isinstance(i, (Fraction, float)):
        raise PyRaise(IndexError("only integers are valid indices"))
    if isinstance(i, S) and sort_of(i.e) == "v":
        # unsigned: only the upper bound matters
        i = S(zi(i))
    if isinstance(i, S) and sort_of(i.e) == "r":
        raise PyRaise(IndexError("only integers are valid indices"))
    e, m = zi(i), zi(n)
    c = ctx()
    if c.prove_now(z3.And(e >= 0, e < m)):
        return i
    if not rt.truth(S(z3.And(e >= -m, e < m))):
        raise PyRaise(IndexError("index out of bounds"))
    if c.prove_now(e >= 0):
        return i
    if c.prove_now(e < 0):
        return S(e + m)
    return S(z3.If(e < 0, e + m, e))


def slice_bounds(rt, s, n):
    """(start, length, step) of a slice over a dimension of length n; step 1 or -1."""
    step = 1 if s.step is None else conc(s.step)
    c = ctx()

    def bound(x, default):
        if x is None:
            return default
        x = conc(x)
        if isinstance(x, S) and sort_of(x.e) == "v":
            x = S(zi(x))
        if isinstance(x, int) and isinstance(n, int):
            if x < 0:
                x += n
            return min(max(x, 0), n)
        e, m = zi(x), zi(n)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            if e.as_long() < 0:
                e = m + e
                return S(e) if c.prove_now(e >= 0) else S(z3.If(e < 0, z3.IntVal(0), e))
            return conc(S(e)) if c.prove_now(e <= m) else S(z3.If(e > m, m, e))
        if c.prove_now(z3.And(e >= 0, e <= m)):
            return S(e)
        return S(z3.If(e < 0, z3.If(e + m < 0, z3.IntVal(0), e + m), z3.If(e > m, m, e)))
    if step == 1:
        a, b = bound(s.start, 0), bound(s.stop, n)
        ln = arith("-", b, a)
        ln = conc(ln)
        if isinstance(ln, int):
            ln = max(ln, 0)
        elif not c.prove_now(ln.e >= 0):
            ln = S(z3.If(ln.e < 0, z3.IntVal(0), ln.e))
        return a, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return arith("-", n, 1), n, -1
    raise Unsupported("slice with a general step")


def plus(a, b):
    r = arith("+", a, b)
    return conc(r) if isinstance(r, S) else r


def row_at(rt, a, k):
    """Row k, for a position known to be in range (iteration)."""
    if a.ndim == 1:
        return a.get((k,))
    prev = a.imap
    return SArr(a.shape[1:], store=a.store, imap=lambda j: prev((k,) + tuple(j)) if prev is not None else (k,) + tuple(j))


def get_item(rt, a, i):
    idx = i if isinstance(i, tuple) else (i,)
    if any(x is Ellipsis for x in idx):
        p = [k for k, x in enumerate(idx) if x is Ellipsis][0]
        n = sum(1 for x in idx if x is not None and x is not Ellipsis)
        idx = idx[:p] + (slice(None),) * (a.ndim - n) + idx[p + 1:]
    # boolean masks
    for p, x in enumerate(idx):
        if isinstance(x, SArr) and x.kind == "b" or isinstance(x, np.ndarray) and x.dtype == object and x.size and all(isinstance(y, (bool,)) or (isinstance(y, S) and sort_of(y.e) == "b") for y in x.reshape(-1)):
            return mask_select(rt, a, idx, p, x)
    out_shape, plan, d = [], [], 0
    for x in idx:
        if x is None:
            out_shape.append(1)
            plan.append(("new",))
            continue
        if d >= a.ndim:
            raise PyRaise(IndexError("too many indices for array"))
        if isinstance(x, slice):
            s, ln, st = slice_bounds(rt, x, a.shape[d])
            plan.append(("slice", s, st))
            out_shape.append(ln)
        elif isinstance(x, (int, S)) and not isinstance(x, bool):
            plan.append(("fix", norm_index(rt, x, a.shape[d])))
        elif isinstance(x, list) and all(isinstance(y, (int, S)) for y in x):
            ys = [norm_index(rt, y, a.shape[d]) for y in x]
            if len(idx) > 1:
                raise Unsupported("mixed advanced indexing")
            rd = a.reader()

            def fn(j, ys=ys, rd=rd):
                k = conc(j[0])
                if isinstance(k, int):
                    return rd((ys[k],) + tuple(j[1:]))
                r = rd((ys[-1],) + tuple(j[1:]))
                for q in range(len(ys) - 2, -1, -1):
                    r = ite(compare("==", k, q), rd((ys[q],) + tuple(j[1:])), r)
                return r
            return SArr((len(ys),) + a.shape[1:], fn, a.kind)
        elif isinstance(x, SArr) and x.ndim == 1 and x.kind in ("i", "v") and len(idx) == 1:
            rd, xr = a.reader(), x.reader()
            n = a.shape[d]
            k = fresh("i", "q")
            t = zi(xr((k,)))
            if not ctx().prove_now(z3.Implies(z3.And(k.e >= 0, k.e < zi(x.shape[0])), z3.And(t >= 0, t < zi(n)))):
                raise Unsupported("gather with possibly invalid indices")
            return SArr(x.shape + a.shape[1:], lambda j: rd((S(zi(xr((j[0],)))),) + tuple(j[1:])), a.kind)
        elif isinstance(x, (Fraction, str)):
            raise PyRaise(IndexError("only integers are valid indices"))
        else:
            raise Unsupported("index %r of a symbolic array" % (x,))
        d += 1
    for q in range(d, a.ndim):
        plan.append(("slice", 0, 1))
        out_shape.append(a.shape[q])
    prev = a.imap

    def imap(j, plan=tuple(plan), prev=prev):
        out, p = [], 0
        for st in plan:
            if st[0] == "new":
                p += 1
            elif st[0] == "fix":
                out.append(st[1])
            else:
                v = j[p]
                p += 1
                if st[2] == -1:
                    out.append(plus(st[1], arith("-", 0, v)))
                elif isinstance(st[1], int) and st[1] == 0:
                    out.append(v)
                else:
                    out.append(plus(st[1], v))
        out = tuple(out)
        return prev(out) if prev is not None else out
    if not out_shape:
        return a.store.fn(imap(()))
    return SArr(out_shape, store=a.store, imap=imap)


class FArr:
    """Selection of the columns (or entries) of an array by a boolean mask, in order."""
    model = True
    pytype = np.ndarray

    def __init__(self, lead, src_n, mask, fn, kind):
        self.lead = tuple(lead)      # leading concrete dimensions
        self.src_n = src_n
        self.mask = mask             # k -> formula
        self.fn = fn                 # (lead index..., k) -> value
        self.kind = kind
        if getattr(mask, "count", None) is None:
            pass

    @property
    def ndim(self):
        return len(self.lead) + 1

    def m_binop(self, rt, op, o, left):
        """Element-wise with a scalar or a selection by the same mask."""
        if op == "@":
            return NotImplemented
        if is_num(o):
            g = (lambda x, j: rt.binop(op, x, o)) if left else (lambda x, j: rt.binop(op, o, x))
        elif isinstance(o, FArr) and o.mask is self.mask and o.lead == self.lead:
            g = (lambda x, j: rt.binop(op, x, o.fn(j))) if left else (lambda x, j: rt.binop(op, o.fn(j), x))
        else:
            return NotImplemented
        return FArr(self.lead, self.src_n, self.mask, lambda j: pure_eval(lambda: g(self.fn(j), j)), None)

    def m_attr(self, rt, name):
        if name == "copy":
            from .interp import Native
            return Native(name, lambda r, a, k: self)
        if name == "ndim":
            return self.ndim
        raise Unsupported("attribute %s of a masked selection" % name)


def mask_select(rt, a, idx, p, x):
    if any(not (isinstance(y, slice) and y == slice(None)) for q, y in enumerate(idx) if q != p):
        raise Unsupported("mixed mask indexing")
    if p != a.ndim - 1 or (x.ndim != 1):
        raise Unsupported("mask on an axis that is not the last")
    if not same_dim(rt, x.shape[0], a.shape[p]):
        raise PyRaise(IndexError("boolean index did not match"))
    rd = a.reader()
    mr = x.reader() if isinstance(x, SArr) else None
    if mr is None:
        raise Unsupported("concrete mask of a symbolic array")

    def mask(k):
        v = mr((k,))
        return z(v) if isinstance(v, S) else z3.BoolVal(bool(v))
    return FArr(a.shape[:-1], a.shape[p], mask, lambda j: rd(tuple(j)), a.kind)


def set_item(rt, a, i, v):
    idx = i if isinstance(i, tuple) else (i,)
    if any(x is None or x is Ellipsis for x in idx):
        raise Unsupported("store with newaxis")
    fixed, free = [], []
    for d, x in enumerate(idx):
        if isinstance(x, (int, S)) and not isinstance(x, bool):
            fixed.append(norm_index(rt, x, a.shape[d]))
            free.append(None)
        elif isinstance(x, slice) and x == slice(None):
            fixed.append(None)
            free.append(d)
        else:
            raise Unsupported("store with index %r" % (x,))
    for d in range(len(idx), a.ndim):
        fixed.append(None)
    if all(f is not None for f in fixed):
        if not is_num(v):
            raise Unsupported("array element store of %r" % (v,))
        a.put(rt, tuple(fixed), v)
        return True
    # row store
    dims = [d for d, f in enumerate(fixed) if f is None]
    rt.ver.note_write(a.store, None)
    if a.imap is not None:
        raise Unsupported("row store through a view")
    if is_num(v):
        src = lambda j: v
    else:
        b = as_sarr(rt, v)
        if b.ndim > len(dims):
            raise PyRaise(ValueError("could not broadcast"))
        br = b.reader()
        off = len(dims) - b.ndim
        src = lambda j: br(tuple(0 if conc(b.shape[q]) == 1 and not (isinstance(a.shape[dims[q + off]], int) and a.shape[dims[q + off]] == 1) else j[q + off] for q in range(b.ndim)))
        for q in range(b.ndim):
            if conc(b.shape[q]) != 1 and not same_dim(rt, b.shape[q], a.shape[dims[q + off]]):
                raise PyRaise(ValueError("could not broadcast input array"))
    old = a.store.fn
    kind = a.kind

    def fn(j):
        fs = [compare("==", j[d], f) for d, f in enumerate(fixed) if f is not None]
        cond = z3.And(*[x.e if isinstance(x, S) else z3.BoolVal(bool(x)) for x in fs]) if fs else z3.BoolVal(True)
        return ite(cond, coerce(src(tuple(j[d] for d in dims)), kind), old(j))
    a.store.fn = fn
    return True


def as_sarr(rt, v):
    if isinstance(v, SArr):
        return v
    if isinstance(v, np.ndarray):
        data = v.copy()

        def fn(j):
            k = tuple(conc(x) for x in j)
            if all(isinstance(x, int) for x in k):
                return data[k]
            return _pick(data, k)
        return SArr(v.shape, fn, None)
    if isinstance(v, (list, tuple)):
        return as_sarr(rt, rt.np.build(rt, v))
    if is_num(v):
        return SArr((), lambda j: v, None)
    raise Unsupported("symbolic array operation with %r" % (v,))


def _pick(data, k):
    if data.ndim == 1:
        r = data[-1]
        for q in range(data.shape[0] - 2, -1, -1):
            r = ite(compare("==", k[0], q), data[q], r)
        return r
    if isinstance(k[0], int):
        return _pick(data[k[0]], k[1:]) if data.ndim > 1 else data[k[0]]
    r = _sub(data[-1], k[1:])
    for q in range(data.shape[0] - 2, -1, -1):
        r = ite(compare("==", k[0], q), _sub(data[q], k[1:]), r)
    return r


def _sub(d, k):
    if all(isinstance(x, int) for x in k):
        return d[k]
    return _pick(d, k)


def broadcast(rt, arrs):
    nd = max(a.ndim for a in arrs)
    shape = []
    for d in range(nd):
        dim = 1
        for a in arrs:
            q = d - (nd - a.ndim)
            if q < 0:
                continue
            s = a.shape[q]
            if isinstance(s, int) and s == 1:
                continue
            if isinstance(dim, int) and dim == 1:
                dim = s
            elif not same_dim(rt, dim, s):
                if isinstance(dim, int) and isinstance(s, int):
                    raise PyRaise(ValueError("operands could not be broadcast together"))
                raise Unsupported("broadcast of dimensions %s and %s" % (dim, s))
        shape.append(dim)
    readers = []
    for a in arrs:
        rd = a.reader()
        off = nd - a.ndim
        ones = [isinstance(s, int) and s == 1 for s in a.shape]
        readers.append(lambda j, rd=rd, off=off, ones=ones: rd(tuple(0 if o else j[q + off] for q, o in enumerate(ones))))
    return tuple(shape), readers


def pure_eval(f):
    c = ctx()
    c.pure += 1
    try:
        return f()
    finally:
        c.pure -= 1


def ew(rt, f, *vals, kind=None):
    arrs = [as_sarr(rt, v) for v in vals]
    shape, rds = broadcast(rt, arrs)
    return concretise(rt, SArr(shape, lambda j: pure_eval(lambda: f(*[r(j) for r in rds])), kind))


def concretise(rt, a):
    """A freshly computed array whose shape turned out concrete becomes an ordinary one."""
    size = 1
    for s in a.shape:
        if not isinstance(s, int):
            return a
        size *= s
    if size > 64 or not a.shape:
        return a
    out = np.empty(a.shape, dtype=object)
    rd = a.reader()
    for j in np.ndindex(*a.shape):
        out[j] = rd(tuple(j))
    return out


def guess_kind(op, a, b):
    ka = a.kind if isinstance(a, SArr) else None
    kb = b.kind if isinstance(b, SArr) else None
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return "b"
    return None


def binop(rt, op, a, b):
    if op == "@":
        return NotImplemented
    return ew(rt, lambda x, y: rt.binop(op, x, y), a, b, kind=guess_kind(op, a, b))


def cmp(rt, op, a, b):
    return ew(rt, lambda x, y: as_s(rt.rich(op, x, y)), a, b, kind="b")


def as_s(v):
    return v if isinstance(v, S) else S(z3.BoolVal(bool(v)))


def inplace(rt, op, a, b):
    rt.ver.note_write(a.store, None)
    if a.imap is not None:
        raise Unsupported("in-place operation through a view of a symbolic array")
    arrs = [as_sarr(rt, a), as_sarr(rt, b)]
    shape, rds = broadcast(rt, arrs)
    kind = a.kind
    a.store.fn = lambda j: coerce(pure_eval(lambda: rt.binop(op, rds[0](j), rds[1](j))), kind)
    return a
