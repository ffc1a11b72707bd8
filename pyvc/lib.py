"""Builtins and standard-library contracts (trusted models)."""
import math as _math
from fractions import Fraction

import numpy as np
import z3

from . import sym
from .sym import (S, Cx, Unsupported, PyRaise, arith, compare, ite, fresh, is_num, ctx, z, zi, zr,
                  sort_of, trunc, fr)
from .interp import (Obj, PyClass, Func, Bound, Native, native, PDict, Prop, StaticM, ClassM, Module, Noop, NOOP,
                     Opaque, OpaqueStr, Super)


class ModelClass:
    """A class implemented by the model (OrderedDict, csr_matrix, ...)."""
    pytype = type

    def __init__(self, name, ctor, real=None):
        self.name, self.ctor, self.real = name, ctor, real

    def __repr__(self):
        return "<model class %s>" % self.name


class Ns:
    """A modelled external module."""

    def __init__(self, name, attrs, noop=False):
        self.name = name
        self.attrs = attrs
        self.noop = noop


ENUM = ModelClass("Enum", None)
AUTO = Opaque("auto()")


# ---------------------------------------------------------------------------
def hash_(rt, v):
    """hash(): congruent with equality of the hashed structure."""
    return S(hterm(rt, v))


_HF = {}


def hfun(n):
    if n not in _HF:
        _HF[n] = z3.Function("hash_tuple%d" % n, *([z3.IntSort()] * (n + 1)))
    return _HF[n]


_HNUM = z3.Function("hash_num", z3.RealSort(), z3.IntSort())
_HSTR = {}


def hterm(rt, v):
    if isinstance(v, (tuple,)):
        if not v:
            return z3.IntVal(7)
        return hfun(len(v))(*[hterm(rt, x) for x in v])
    if isinstance(v, str):
        return z3.Int("hash_str[%s]" % v)
    if v is None:
        return z3.Int("hash_none")
    if isinstance(v, Cx):
        return z3.Function("hash_cx", z3.RealSort(), z3.RealSort(), z3.IntSort())(zr(v.re), zr(v.im))
    if is_num(v):
        return _HNUM(zr(v))
    if isinstance(v, Obj):
        f = v.cls.lookup("__hash__")
        if f is None:
            if v.cls.lookup("__eq__") is not None:
                raise PyRaise(TypeError("unhashable type"))
            return z3.Int("hash_id[%d]" % id(v))
        if isinstance(f, (Func,)):
            r = rt.call(Bound(f, v), [], {})
            return zi(r)
        raise PyRaise(TypeError("unhashable type"))
    if isinstance(v, (list, PDict, set, np.ndarray)):
        raise PyRaise(TypeError("unhashable type"))
    if isinstance(v, (frozenset, PyClass, Func, type)):
        return z3.Int("hash_obj[%d]" % id(v))
    raise Unsupported("hash of %r" % (v,))


def check_hashable(rt, v):
    if isinstance(v, (list, PDict, set, np.ndarray)):
        raise PyRaise(TypeError("unhashable type"))
    if isinstance(v, tuple):
        for x in v:
            check_hashable(rt, x)


def has_symbolic(v):
    if isinstance(v, (S, Cx, Obj)):
        return True
    if isinstance(v, (tuple, list)):
        return any(has_symbolic(x) for x in v)
    return not isinstance(v, (int, str, bool, Fraction, type(None), frozenset))


class PSet:
    """Set whose members may be symbolic: association list without duplicates."""
    pytype = set

    def __init__(self):
        self.items_ = []

    def add(self, rt, x):
        for y in self.items_:
            if rt.truth(rt.eq(y, x)):
                return
        self.items_.append(x)


def make_set(rt, xs):
    xs = list(xs)
    if any(has_symbolic(x) for x in xs):
        s = PSet()
        for x in xs:
            s.add(rt, x)
        return s
    try:
        return set(xs)
    except TypeError as e:
        raise PyRaise(e)


def dict_items(rt, d):
    if isinstance(d, PDict):
        return list(d.items_)
    if isinstance(d, dict):
        return list(d.items())
    if isinstance(d, Ns) or isinstance(d, Noop):
        return []
    raise Unsupported("items of %r" % (d,))


def dict_eq(rt, a, b):
    if len(a.items_) != len(b.items_):
        return False
    acc = True
    for k, v in a.items_:
        i = b.find(rt, k)
        if i < 0:
            return False
        acc = rt.conj(acc, rt.eq_item(v, b.items_[i][1]))
        if acc is False:
            return False
    return acc


# ---------------------------------------------------------------------------
def builtins(rt):
    B = {}

    def add(name):
        def deco(f):
            B[name] = Native(name, lambda r, a, k: f(*a, **k))
            return f
        return deco

    for e in ("BaseException Exception ValueError TypeError KeyError IndexError RuntimeError AssertionError "
              "AttributeError NotImplementedError StopIteration ZeroDivisionError OverflowError ArithmeticError "
              "LookupError NameError ImportError OSError UnboundLocalError Warning UserWarning DeprecationWarning "
              "RuntimeWarning FloatingPointError RecursionError").split():
        B[e] = getattr(__builtins__, e) if not isinstance(__builtins__, dict) else __builtins__[e]
    for t in (int, float, complex, bool, str, bytes, tuple, list, dict, set, frozenset, range, object, type, slice):
        B[t.__name__] = t
    B.update({"None": None, "True": True, "False": False, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
              "__debug__": True})

    @add("len")
    def len_(x):
        return length(rt, x)

    @add("isinstance")
    def isinstance_(v, T):
        return rt.isinstance(v, T)

    @add("issubclass")
    def issubclass_(a, T):
        ts = T if isinstance(T, tuple) else (T,)
        for t in ts:
            if isinstance(a, PyClass):
                if a.issub(t):
                    return True
            elif isinstance(a, type) and isinstance(t, type) and issubclass(a, t):
                return True
        return False

    @add("enumerate")
    def enumerate_(it, start=0):
        s = rt.seqs.symbolic_iter(rt, it)
        if s is not None:
            return rt.seqs.enumerate_(rt, s, start)

        def gen():
            i = start
            for x in rt.iterate(it):
                yield (i, x)
                i = rt.binop("+", i, 1)
        return gen()

    @add("zip")
    def zip_(*its):
        syms = [rt.seqs.symbolic_iter(rt, it) for it in its]
        if any(s is not None for s in syms):
            return rt.seqs.zip_(rt, its, syms)
        return zip(*[rt.iterate(it) for it in its])

    @add("map")
    def map_(f, *its):
        syms = [rt.seqs.symbolic_iter(rt, it) for it in its]
        if any(s is not None for s in syms):
            if len(its) == 1:
                return rt.seqs.map_(rt, f, syms[0])
            raise Unsupported("map over several symbolic iterables")
        return (rt.call(f, list(xs), {}) for xs in zip(*[rt.iterate(it) for it in its]))

    @add("filter")
    def filter_(f, it):
        return (x for x in rt.iterate(it) if rt.truth(x if f is None else rt.call(f, [x], {})))

    @add("reversed")
    def reversed_(it):
        s = rt.seqs.symbolic_iter(rt, it)
        if s is not None:
            return rt.seqs.reversed_(rt, s)
        if isinstance(it, Obj) and it.cls.lookup("__reversed__"):
            return rt.call(Bound(it.cls.lookup("__reversed__"), it), [], {})
        if isinstance(it, (range,)):
            return iter(it[::-1])
        return iter(rt.to_list(it)[::-1])

    @add("sorted")
    def sorted_(it, key=None, reverse=False):
        return rt.seqs.sorted_(rt, it, key, reverse)

    def minmax(name):
        def f(*args, key=None, default=NotImplemented):
            xs = args[0] if len(args) == 1 else list(args)
            s = rt.seqs.symbolic_iter(rt, xs)
            if s is not None:
                return rt.seqs.minmax(rt, name, s, key)
            xs = rt.to_list(xs)
            if not xs:
                if default is NotImplemented:
                    raise PyRaise(ValueError("empty sequence"))
                return default
            best = xs[0]
            kb = best if key is None else rt.call(key, [best], {})
            for x in xs[1:]:
                kx = x if key is None else rt.call(key, [x], {})
                c = rt.rich("<" if name == "min" else ">", kx, kb)
                if isinstance(c, S) and is_num(x) and is_num(best):
                    best = ite(c, x, best)
                    kb = ite(c, kx, kb)
                elif rt.truth(c):
                    best, kb = x, kx
            return best
        return f
    B["min"] = Native("min", lambda r, a, k: minmax("min")(*a, **k))
    B["max"] = Native("max", lambda r, a, k: minmax("max")(*a, **k))

    @add("sum")
    def sum_(it, start=0):
        s = rt.seqs.symbolic_iter(rt, it)
        if s is not None:
            return rt.seqs.sum_(rt, s, start)
        acc = start
        for x in rt.iterate(it):
            acc = rt.binop("+", acc, x)
        return acc

    @add("all")
    def all_(it):
        s = rt.seqs.symbolic_iter(rt, it)
        if s is not None:
            return rt.seqs.quant(rt, s, True)
        acc = True
        for x in rt.iterate(it):
            if isinstance(x, S):
                acc = rt.conj(acc, S(rt.as_bool_term(x)))
                if isinstance(acc, S):
                    e = z3.simplify(acc.e)
                    if z3.is_false(e):
                        return False
            elif not rt.truth(x):
                return False
        return acc

    @add("any")
    def any_(it):
        s = rt.seqs.symbolic_iter(rt, it)
        if s is not None:
            return rt.seqs.quant(rt, s, False)
        acc = False
        for x in rt.iterate(it):
            if isinstance(x, S):
                e = rt.as_bool_term(x)
                acc = S(e) if acc is False else S(z3.Or(acc.e, e))
            elif rt.truth(x):
                return True
        return acc

    @add("abs")
    def abs_(x):
        return rt.np.abs_(rt, x)

    @add("divmod")
    def divmod_(a, b):
        return (rt.binop("//", a, b), rt.binop("%", a, b))

    @add("pow")
    def pow_(a, b):
        return rt.binop("**", a, b)

    @add("round")
    def round_(x, ndigits=None):
        return rt.np.round_(rt, x, ndigits)

    @add("hash")
    def h(x):
        return hash_(rt, x)

    @add("id")
    def id_(x):
        return id(x)

    @add("repr")
    def repr_(x):
        return tostr(rt, x, True)

    @add("format")
    def format_(x, spec=""):
        return OpaqueStr((x, spec))

    @add("print")
    def print_(*a, **k):
        return None

    @add("iter")
    def iter_(x):
        if isinstance(x, Obj) and x.cls.lookup("__iter__") is not None:
            return rt.call(rt.getattr(x, "__iter__"), [], {})
        if rt.seqs.symbolic_iter(rt, x) is not None:
            return rt.seqs.iter_(rt, x)
        return rt.iterate(x)

    @add("next")
    def next_(x, *d):
        if isinstance(x, Obj):
            return rt.call(Bound(x.cls.lookup("__next__"), x), [], {})
        r = rt.seqs.next_(rt, x)
        if r is not NotImplemented:
            return r
        try:
            return next(x)
        except StopIteration as e:
            if d:
                return d[0]
            raise PyRaise(e)

    @add("callable")
    def callable_(x):
        return isinstance(x, (Func, Bound, Native, PyClass, type))

    @add("getattr")
    def getattr_(o, name, *d):
        try:
            return rt.getattr(o, name)
        except PyRaise as e:
            if d and isinstance(e.exc, AttributeError):
                return d[0]
            raise

    @add("setattr")
    def setattr_(o, name, v):
        rt.setattr(o, name, v)

    @add("hasattr")
    def hasattr_(o, name):
        try:
            rt.getattr(o, name)
            return True
        except PyRaise as e:
            if isinstance(e.exc, AttributeError):
                return False
            raise

    @add("vars")
    def vars_(o):
        return PDict(o.attrs.items())

    @add("property")
    def property_(fget=None, fset=None, fdel=None, doc=None):
        return Prop(fget, fset)

    @add("staticmethod")
    def staticmethod_(f):
        return StaticM(f)

    @add("classmethod")
    def classmethod_(f):
        return ClassM(f)

    @add("super")
    def super_(cls, obj):
        return Super(cls, obj)

    @add("bin")
    def bin_(x):
        if isinstance(x, int):
            return bin(x)
        return OpaqueStr((x,))

    return B


def tostr(rt, x, rep=False):
    if isinstance(x, str) and not rep:
        return x
    if isinstance(x, (int, str)):
        return repr(x) if rep else str(x)
    if isinstance(x, Obj):
        for n in (["__repr__"] if rep else ["__str__", "__repr__"]):
            f = x.cls.lookup(n)
            if f is not None:
                return rt.call(Bound(f, x), [], {})
    return OpaqueStr((x,))


def length(rt, x):
    if isinstance(x, (tuple, list, str, set, frozenset, range)):
        return len(x)
    if isinstance(x, (PDict, PSet)):
        return len(x.items_)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            raise PyRaise(TypeError("len() of unsized object"))
        return x.shape[0]
    if isinstance(x, Obj):
        f = x.cls.lookup("__len__")
        if f is not None:
            return rt.call(Bound(f, x), [], {})
    if isinstance(x, PyClass) and x.members is not None:
        return len(x.members)
    r = rt.seqs.length(rt, x)
    if r is not NotImplemented:
        return r
    raise PyRaise(TypeError("object of type %s has no len()" % (rt.type_of(x),)))


def to_int(rt, x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, (S, Fraction)):
        return trunc(x)
    if isinstance(x, (bool, int, np.integer)):
        return int(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError as e:
            raise PyRaise(e)
    if isinstance(x, Cx):
        raise PyRaise(TypeError("int() of complex"))
    if isinstance(x, Obj) and x.cls.lookup("__int__"):
        return rt.call(Bound(x.cls.lookup("__int__"), x), [], {})
    raise PyRaise(TypeError("int() argument"))


def to_float(rt, x):
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, S):
        return S(zr(x), float)
    if isinstance(x, (bool, int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    if isinstance(x, str):
        if x in ("inf", "+inf", "-inf", "nan"):
            return float(x)
        return Fraction(float(x))
    raise PyRaise(TypeError("float() argument"))


def call_type(rt, f, args, kw):
    if isinstance(f, ModelClass):
        return f.ctor(rt, args, kw)
    if isinstance(f, CallableNs):
        return f.fn.fn(rt, args, kw)
    if isinstance(f, type):
        if issubclass(f, BaseException):
            e = f(*[a for a in args if isinstance(a, (str, int))])
            return e
        if f is int:
            return to_int(rt, args[0]) if args else 0
        if f is float:
            return to_float(rt, args[0]) if args else Fraction(0)
        if f is bool:
            if not args:
                return False
            v = args[0]
            if isinstance(v, S):
                return S(v.e if sort_of(v.e) == "b" else v.e != 0)
            return rt.truth(v)
        if f is complex:
            a = args[0] if args else 0
            b = args[1] if len(args) > 1 else 0
            return rt.binop("+", a, rt.binop("*", b, Cx(Fraction(0), Fraction(1))))
        if f is str:
            return tostr(rt, args[0]) if args else ""
        if f in (tuple, list):
            if not args:
                return rt.empty("list", []) if f is list else ()
            s = rt.seqs.symbolic_iter(rt, args[0])
            if s is not None:
                return rt.seqs.materialise(rt, s, f)
            return f(rt.iterate(args[0]))
        if f in (set, frozenset):
            if not args:
                return rt.empty("set", make_set(rt, [])) if f is set else frozenset()
            s = rt.seqs.symbolic_iter(rt, args[0])
            if s is not None:
                return rt.seqs.sym_set(rt, s)
            return make_set(rt, rt.iterate(args[0]))
        if f is dict:
            d = rt.empty("dict", PDict()) if not args and not kw else PDict()
            if args and getattr(args[0], "model", False) and hasattr(args[0], "state"):
                return args[0].copy()
            if args:
                if isinstance(args[0], PDict):
                    d.items_ = list(args[0].items_)
                else:
                    s = rt.seqs.symbolic_iter(rt, args[0])
                    if s is not None:
                        return rt.seqs.sym_dict(rt, s)
                    for kv in rt.iterate(args[0]):
                        k, v = rt.unpack(kv, 2)
                        rt.set_item(d, k, v)
            for k, v in kw.items():
                rt.set_item(d, k, v)
            return d
        if f is range:
            return rt.seqs.range_(rt, args)
        if f is type:
            return rt.type_of(args[0])
        if f is slice:
            return slice(*(list(args) if len(args) > 1 else [None] + list(args)))
        if f is object:
            return Opaque("object()")
        r = rt.np.call_type(rt, f, args, kw)
        if r is not NotImplemented:
            return r
    if isinstance(f, Noop):
        return NOOP
    r = rt.seqs.call(rt, f, args, kw)
    if r is not NotImplemented:
        return r
    return NotImplemented


# ---------------------------------------------------------------------------
def attribute(rt, o, name):
    if isinstance(o, Ns):
        if name in o.attrs:
            return o.attrs[name]
        if o.noop:
            return NOOP
        raise Unsupported("%s.%s is not modelled" % (o.name, name))
    if isinstance(o, ModelClass):
        raise Unsupported("%s.%s" % (o.name, name))
    if isinstance(o, (str, OpaqueStr)):
        return Native("str." + name, lambda r, a, k: str_method(r, o, name, a, k))
    if isinstance(o, list):
        if name in LIST:
            return Native("list." + name, lambda r, a, k: list_method(r, o, name, a, k))
        return NotImplemented
    if isinstance(o, tuple):
        if name == "index":
            return Native("index", lambda r, a, k: list_method(r, list(o), name, a, k))
        if name == "count":
            return Native("count", lambda r, a, k: list_method(r, list(o), name, a, k))
        return NotImplemented
    if isinstance(o, PDict):
        if name in ("items", "keys", "values", "get", "setdefault", "pop", "update", "copy", "clear", "move_to_end", "popitem"):
            return Native("dict." + name, lambda r, a, k: dict_method(r, o, name, a, k))
        return NotImplemented
    if isinstance(o, (set, frozenset, PSet)):
        return Native("set." + name, lambda r, a, k: set_method(r, o, name, a, k))
    if isinstance(o, BaseException):
        if name == "args":
            return tuple(o.args)
        return NotImplemented
    if o is dict and name == "fromkeys":
        def fk(r, a, k):
            d = PDict()
            for x in r.iterate(a[0]):
                r.set_item(d, x, a[1] if len(a) > 1 else None)
            return d
        return Native("fromkeys", fk)
    r = rt.np.attribute(rt, o, name)
    if r is not NotImplemented:
        return r
    r = rt.seqs.attribute(rt, o, name)
    if r is not NotImplemented:
        return r
    if isinstance(o, Bound) and name == "__self__":
        return o.self_
    if isinstance(o, int) and not isinstance(o, bool) and name in ("bit_length", "real", "imag", "conjugate", "bit_count"):
        if name in ("real",):
            return o
        if name == "imag":
            return 0
        if name == "conjugate":
            return Native("conjugate", lambda r, a, k: o)
        return Native(name, lambda r, a, k: getattr(o, name)())
    if isinstance(o, (Fraction, float)):
        if name == "real":
            return o
        if name == "imag":
            return Fraction(0)
        if name == "conjugate":
            return Native("conjugate", lambda r, a, k: o)
        if name == "is_integer":
            return Native("is_integer", lambda r, a, k: o == int(o))
    if isinstance(o, (S, Cx)):
        if name in ("real", "imag"):
            return getattr(o, name)
        if name in ("conjugate", "conj"):
            return Native("conjugate", lambda r, a, k: o.conjugate())
        if name == "item":
            return Native("item", lambda r, a, k: o)
        if name == "is_integer":
            return Native("is_integer", lambda r, a, k: S(z3.IsInt(zr(o))))
    if isinstance(o, type) and name == "__name__":
        return o.__name__
    if isinstance(o, type) and o in (int, float, bool, complex) and name in ("__add__", "__mul__"):
        return Native(name, lambda r, a, k: r.binop("+" if name == "__add__" else "*", a[0], a[1]))
    if name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        op = {"__eq__": "==", "__ne__": "!=", "__lt__": "<", "__le__": "<=", "__gt__": ">", "__ge__": ">="}[name]
        return Native(name, lambda r, a, k: r.rich(op, o, a[0]))
    return NotImplemented


def set_attribute(rt, o, name, v):
    return rt.np.set_attribute(rt, o, name, v)


LIST = ("append extend insert pop remove sort reverse index count copy clear").split()


def list_method(rt, o, name, a, k):
    if name not in ("index", "count", "copy"):
        rt.ver.note_write(o, None)
    if name == "append":
        o.append(a[0])
    elif name == "extend":
        o.extend(rt.to_list(a[0]))
    elif name == "insert":
        o.insert(a[0].__index__(), a[1])
    elif name == "pop":
        try:
            return o.pop(*[int(x) for x in a])
        except IndexError as e:
            raise PyRaise(e)
    elif name == "remove":
        for i, x in enumerate(o):
            if rt.truth(rt.eq(x, a[0])):
                del o[i]
                return None
        raise PyRaise(ValueError("not in list"))
    elif name == "sort":
        o[:] = rt.seqs.sorted_(rt, list(o), k.get("key"), k.get("reverse", False))
    elif name == "reverse":
        o.reverse()
    elif name == "copy":
        return list(o)
    elif name == "clear":
        o.clear()
    elif name == "index":
        for i, x in enumerate(o):
            if rt.truth(rt.eq(x, a[0])):
                return i
        raise PyRaise(ValueError("not in list"))
    elif name == "count":
        n = 0
        for x in o:
            e = rt.eq(x, a[0])
            if isinstance(e, S):
                n = rt.binop("+", n, ite(e, 1, 0))
            elif rt.truth(e):
                n = rt.binop("+", n, 1)
        return n
    return None


def dict_method(rt, o, name, a, k):
    if name in ("setdefault", "pop", "update", "clear", "move_to_end", "popitem"):
        rt.ver.note_write(o, None)
    if name == "items":
        return list(o.items_) if True else None
    if name == "keys":
        return DictView(o, 0)
    if name == "values":
        return DictView(o, 1)
    if name == "get":
        i = o.find(rt, a[0])
        return o.items_[i][1] if i >= 0 else (a[1] if len(a) > 1 else None)
    if name == "setdefault":
        i = o.find(rt, a[0])
        if i >= 0:
            return o.items_[i][1]
        v = a[1] if len(a) > 1 else None
        o.items_.append((a[0], v))
        return v
    if name == "pop":
        i = o.find(rt, a[0])
        if i >= 0:
            v = o.items_[i][1]
            del o.items_[i]
            return v
        if len(a) > 1:
            return a[1]
        raise PyRaise(KeyError(a[0]))
    if name == "update":
        for x in a:
            for kk, vv in (x.items_ if isinstance(x, PDict) else [rt.unpack(q, 2) for q in rt.iterate(x)]):
                rt.set_item(o, kk, vv)
        for kk, vv in k.items():
            rt.set_item(o, kk, vv)
        return None
    if name == "copy":
        return PDict(o.items_)
    if name == "clear":
        o.items_.clear()
        return None
    raise Unsupported("dict.%s" % name)


class DictView(list):
    """keys() or values(); a live view in Python, a snapshot here (never mutated)."""

    def __init__(self, d, i):
        list.__init__(self, [kv[i] for kv in d.items_])


def set_method(rt, o, name, a, k):
    if isinstance(o, PSet):
        if name == "add":
            rt.ver.note_write(o, None)
            o.add(rt, a[0])
            return None
        raise Unsupported("set.%s on symbolic members" % name)
    xs = []
    for x in a:
        if isinstance(x, (set, frozenset)):
            xs.append(x)
        elif name in ("add", "discard", "remove"):
            xs.append(x)
        else:
            if rt.seqs.symbolic_iter(rt, x) is not None or isinstance(x, PSet):
                raise Unsupported("set.%s with symbolic members" % name)
            xs.append(set(rt.iterate(x)))
    if any(has_symbolic(x) for x in xs if not isinstance(x, (set, frozenset))) or any(
            any(has_symbolic(y) for y in x) for x in xs if isinstance(x, (set, frozenset))):
        raise Unsupported("set.%s with symbolic members" % name)
    if name in ("add", "discard", "remove", "pop", "clear", "update"):
        rt.ver.note_write(o, None)
    if name in ("add", "discard", "remove", "isdisjoint", "issubset", "issuperset", "union", "intersection",
                "difference", "symmetric_difference", "copy", "update", "pop", "clear"):
        try:
            return getattr(o, name)(*xs)
        except (KeyError, TypeError) as e:
            raise PyRaise(e)
    raise Unsupported("set.%s" % name)


def str_method(rt, o, name, a, k):
    if isinstance(o, str) and all(isinstance(x, (str, int)) for x in a) and not k and name != "join":
        try:
            return getattr(o, name)(*a)
        except AttributeError as e:
            raise PyRaise(e)
        except (ValueError, IndexError, KeyError) as e:
            raise PyRaise(e)
    if name == "format":
        # objects are formatted through their own __repr__/__str__
        return OpaqueStr((o,) + tuple(a))
    if name == "join":
        if rt.seqs.symbolic_iter(rt, a[0]) is not None:
            return OpaqueStr((o, a[0]))
        xs = rt.to_list(a[0])
        if isinstance(o, str) and all(isinstance(x, str) for x in xs):
            return o.join(xs)
        return OpaqueStr((o,) + tuple(xs))
    if name in ("replace", "strip", "lower", "upper", "lstrip", "rstrip", "split"):
        return OpaqueStr((o,) + tuple(a))
    raise Unsupported("str.%s on an opaque string" % name)


# ---------------------------------------------------------------------------
# external modules
_FACT = z3.Function("factorial", z3.IntSort(), z3.IntSort())


def factorial(rt, a, k):
    n = a[0]
    if isinstance(n, bool):
        n = int(n)
    if isinstance(n, int):
        if n < 0:
            raise PyRaise(ValueError("factorial() not defined for negative values"))
        return _math.factorial(n)
    if isinstance(n, S) and sort_of(n.e) == "i":
        if not rt.truth(S(n.e >= 0)):
            raise PyRaise(ValueError("factorial() not defined for negative values"))
        r = S(_FACT(n.e))
        ctx().assume(_FACT(n.e) >= 1)
        return r
    raise PyRaise(TypeError("factorial() needs an integer"))


def math_ns(rt):
    import operator

    def floor(r, a, k):
        x = a[0]
        if isinstance(x, S):
            return S(z3.ToInt(zr(x))) if sort_of(x.e) == "r" else x
        return _math.floor(x)

    def ceil(r, a, k):
        x = a[0]
        if isinstance(x, S):
            return S(-z3.ToInt(-zr(x))) if sort_of(x.e) == "r" else x
        return _math.ceil(x)
    np_ = rt.np
    d = {"factorial": Native("factorial", factorial), "floor": Native("floor", floor), "ceil": Native("ceil", ceil),
         "sqrt": Native("sqrt", lambda r, a, k: np_.sqrt1(a[0])), "pi": np_.PI, "inf": float("inf"),
         "sin": Native("sin", lambda r, a, k: np_.trig("sin", a[0])), "cos": Native("cos", lambda r, a, k: np_.trig("cos", a[0])),
         "atan2": Native("atan2", lambda r, a, k: np_.arctan2(rt, a[0], a[1])),
         "hypot": Native("hypot", lambda r, a, k: np_.sqrt1(rt.binop("+", rt.binop("*", a[0], a[0]), rt.binop("*", a[1], a[1])))),
         "prod": Native("prod", lambda r, a, k: prod_(rt, a, k)), "comb": Native("comb", comb), "perm": Native("perm", perm),
         "radians": Native("radians", lambda r, a, k: rt.binop("/", rt.binop("*", a[0], np_.PI), 180)),
         "degrees": Native("degrees", lambda r, a, k: rt.binop("/", rt.binop("*", a[0], 180), np_.PI)),
         "fabs": Native("fabs", lambda r, a, k: np_.abs_(rt, a[0]))}
    return Ns("math", d)


def prod_(rt, a, k):
    acc = k.get("start", 1)
    for x in rt.iterate(a[0]):
        acc = rt.binop("*", acc, x)
    return acc


_COMB = z3.Function("comb", z3.IntSort(), z3.IntSort(), z3.IntSort())


def comb(rt, a, k):
    n, m = a
    if isinstance(n, int) and isinstance(m, int):
        return _math.comb(n, m)
    # n! == C(n,m) m! (n-m)! for 0 <= m <= n
    if not rt.truth(rt.land(rt.rich(">=", n, 0), rt.rich(">=", m, 0))):
        raise PyRaise(ValueError("negative"))
    n, m = zi(n), zi(m)
    if not rt.truth(S(m <= n)):
        return 0
    r = _COMB(n, m)
    ctx().assume(z3.And(r >= 1, r * _FACT(m) * _FACT(n - m) == _FACT(n)))
    return S(r)


def perm(rt, a, k):
    n, m = a
    if isinstance(n, int) and isinstance(m, int):
        return _math.perm(n, m)
    if not rt.truth(rt.land(rt.rich(">=", n, 0), rt.rich(">=", m, 0))):
        raise PyRaise(ValueError("negative"))
    n, m = zi(n), zi(m)
    if not rt.truth(S(m <= n)):
        return 0
    r = z3.Int(ctx().name("perm"))
    ctx().assume(z3.And(r >= 1, r * _FACT(n - m) == _FACT(n)))
    return S(r)


def itertools_ns(rt):
    import itertools as I
    S_ = rt.seqs

    def product(r, a, k):
        rep = k.get("repeat", 1)
        if any(S_.symbolic_iter(rt, x) is not None for x in a) or any(isinstance(x, S_.StarArgs) for x in a) or isinstance(rep, S):
            return S_.product_(rt, a, rep)
        return I.product(*[rt.to_list(x) for x in a], repeat=rep)

    def combinations(r, a, k):
        it, n = (list(a) + [k.get("r")])[:2]
        s = S_.symbolic_iter(rt, it)
        if s is not None or isinstance(n, S):
            return S_.combinations_(rt, it, n)
        return I.combinations(rt.to_list(it), n)

    def chain(r, a, k):
        if any(isinstance(x, S_.StarArgs) for x in a) or any(S_.symbolic_iter(rt, x) is not None for x in a):
            return S_.chain_(rt, a)

        def g():
            for x in a:
                yield from rt.iterate(x)
        return g()

    def simple(fn):
        return lambda r, a, k: fn(*[rt.to_list(x) if not isinstance(x, (int, type(None))) else x for x in a], **k)

    def repeat(r, a, k):
        if len(a) > 1:
            return iter([a[0]] * a[1])
        return I.repeat(a[0])

    def from_iterable(r, a, k):
        def g():
            for x in rt.iterate(a[0]):
                yield from rt.iterate(x)
        s = S_.symbolic_iter(rt, a[0])
        if s is not None:
            return S_.chain_(rt, [S_.StarArgs(S_.seq_of_iter(rt, s))])
        return g()
    ch = CallableNs("chain", Native("chain", chain), {"from_iterable": Native("from_iterable", from_iterable)})

    def accumulate(r, a, k):
        acc = []
        cur = None
        for i, x in enumerate(rt.iterate(a[0])):
            cur = x if i == 0 else rt.binop("+", cur, x)
            acc.append(cur)
        return iter(acc)

    def starmap(r, a, k):
        return (rt.call(a[0], rt.to_list(x), {}) for x in rt.iterate(a[1]))
    return Ns("itertools", {"product": Native("product", product), "combinations": Native("combinations", combinations),
                            "chain": ch, "permutations": Native("permutations", simple(I.permutations)),
                            "repeat": Native("repeat", repeat), "accumulate": Native("accumulate", accumulate),
                            "starmap": Native("starmap", starmap),
                            "count": Native("count", lambda r, a, k: I.count(*a)),
                            "islice": Native("islice", lambda r, a, k: I.islice(rt.iterate(a[0]), *a[1:])),
                            "pairwise": Native("pairwise", lambda r, a, k: I.pairwise(rt.iterate(a[0]))),
                            "zip_longest": Native("zip_longest", simple(I.zip_longest)),
                            "cycle": Native("cycle", simple(I.cycle)),
                            "combinations_with_replacement": Native("cwr", simple(I.combinations_with_replacement))})


class CallableNs(Ns):
    pytype = type

    def __init__(self, name, fn, attrs):
        Ns.__init__(self, name, attrs)
        self.fn = fn


def external(rt, name):
    top = name.split(".")[0]
    if name == "math":
        return math_ns(rt)
    if name == "itertools":
        return itertools_ns(rt)
    if name == "collections":
        def od(r, a, k):
            return call_type(r, dict, a, k)

        def dd(r, a, k):
            raise Unsupported("defaultdict")
        from .interp import PDict as P
        return Ns("collections", {"OrderedDict": ModelClass("OrderedDict", od, P), "defaultdict": ModelClass("defaultdict", dd)})
    if name == "enum":
        return Ns("enum", {"Enum": ENUM, "IntEnum": ENUM, "auto": Native("auto", lambda r, a, k: AUTO), "unique": Native("unique", lambda r, a, k: a[0])})
    if name == "functools":
        def reduce_(r, a, k):
            f, it = a[0], a[1]
            xs = rt.to_list(it)
            acc = a[2] if len(a) > 2 else None
            if len(a) <= 2:
                if not xs:
                    raise PyRaise(TypeError("reduce() of empty sequence"))
                acc, xs = xs[0], xs[1:]
            for x in xs:
                acc = rt.call(f, [acc, x], {})
            return acc

        def partial(r, a, k):
            f = a[0]
            return Native("partial", lambda r2, a2, k2: rt.call(f, list(a[1:]) + list(a2), {**k, **k2}))

        def ident(r, a, k):
            return a[0]

        def deco(r, a, k):
            raise Unsupported("functools cache")
        return Ns("functools", {"reduce": Native("reduce", reduce_), "partial": Native("partial", partial),
                                "wraps": Native("wraps", lambda r, a, k: Native("w", ident)),
                                "lru_cache": Native("lru_cache", deco), "cache": Native("cache", deco)})
    if name == "operator":
        def itemgetter(r, a, k):
            if len(a) == 1:
                return Native("itemgetter", lambda r2, a2, k2: rt.get_item(a2[0], a[0]))
            return Native("itemgetter", lambda r2, a2, k2: tuple(rt.get_item(a2[0], i) for i in a))

        def attrgetter(r, a, k):
            return Native("attrgetter", lambda r2, a2, k2: rt.getattr(a2[0], a[0]))
        ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "xor": "^", "and_": "&", "or_": "|"}
        d = {n: Native(n, (lambda o: lambda r, a, k: rt.binop(o, a[0], a[1]))(o)) for n, o in ops.items()}
        d.update({"itemgetter": Native("itemgetter", itemgetter), "attrgetter": Native("attrgetter", attrgetter),
                  "neg": Native("neg", lambda r, a, k: rt.np.negate(rt, a[0]))})
        return Ns("operator", d)
    if top in ("logging", "time", "matplotlib", "warnings", "pathlib", "sys", "os", "pickle", "tables", "datetime", "mpl_toolkits"):
        return Ns(name, {"INFO": 20, "DEBUG": 10, "WARNING": 30}, noop=True)
    if top == "typing":
        return Ns(name, {}, noop=True)
    if top == "numba":
        def jit(r, a, k):
            if len(a) == 1 and isinstance(a[0], Func):
                return a[0]
            return Native("jit", lambda r2, a2, k2: a2[0])
        j = Native("jit", jit)
        return Ns("numba", {"jit": j, "njit": j, "vectorize": j, "prange": range}, noop=True)
    if top in ("numpy", "scipy"):
        return rt.np.namespace(rt, name)
    if top == "HamiltonianPy":
        return None
    if rt.source_path(name):
        return None
    raise Unsupported("module %s is not modelled" % name)
