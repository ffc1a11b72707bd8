"""An interpreter of the repository's own Python source over symbolic values.

Every run parses the files below /repo again.  The syntax tree that CPython
compiles is the one that is executed here; nothing is translated or rewritten.
What is dropped: doc strings, decorators of numba (taken as the identity),
plotting, logging and timing calls (no-ops).
"""
import ast
import os
from fractions import Fraction

import numpy as np
import z3

from .sym import (S, Cx, Ctx, Split, Unsupported, PathEnd, PyRaise, arith, compare, ite, fresh, is_num,
                  tobool, ctx, z, zi, zr, sort_of, eqz, trunc)

REPO = os.environ.get("HP_REPO", "/repo")


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


# ---------------------------------------------------------------------------
# run-time objects
class Module:
    def __init__(self, name):
        self.name = name
        self.env = {"__name__": name}


class Func:
    pytype = type(lambda: 0)

    def __init__(self, node, env, mod, qual, defaults, kwdefaults, defcls=None):
        self.node = node
        self.env = env          # enclosing local Env or None
        self.mod = mod
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.defcls = defcls
        self.isgen = not isinstance(node, ast.Lambda) and has_yield(node)
        self.attrs = {}

    def __repr__(self):
        return "<Func %s>" % self.qual


def has_yield(node):
    for n in walk_scope(node.body):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(stmts):
    """Walk statements without entering nested functions, classes or lambdas."""
    todo = list(stmts)
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                todo.append(c)


class Bound:
    pytype = type(Module.__init__)

    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return "<Bound %r>" % self.func


class PyClass:
    pytype = type

    def __init__(self, name, bases, env, mod):
        self.name = name
        self.bases = bases
        self.env = env
        self.mod = mod
        self.members = None       # Enum members
        self.mro = self._mro()

    def _mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro if isinstance(b, PyClass) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, PyClass) and name in c.env:
                return c.env[name]
        return None

    def issub(self, other):
        if isinstance(other, PyClass):
            return other in self.mro
        return any(isinstance(c, type) and issubclass(c, other) for c in self.mro)

    def __repr__(self):
        return "<class %s>" % self.name


class Obj:
    """Instance of an interpreted class."""

    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        Split.births += 1
        self.birth = Split.births
        self.tag = None          # index into a symbolic family (see seqs)
        self.merged = False      # stands for one of several objects: must not be written

    @property
    def pytype(self):
        return self.cls

    def m_ite(self, c, other):
        if not isinstance(other, Obj) or other.cls is not self.cls or not self.attrs or set(other.attrs) != set(self.attrs) or self.tag is not None or other.tag is not None:
            raise Unsupported("cannot merge %r and %r" % (type(self), type(other)))
        o = Obj(self.cls)
        o.merged = True
        for k, v in self.attrs.items():
            w = other.attrs[k]
            if isinstance(v, (list, np.ndarray, PDict, set)) and v is not w:
                raise Unsupported("merging mutable attributes")
            same = v is w or isinstance(v, str) and v == w
            o.attrs[k] = v if same else ite(c, v, w)
        return o

    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.attrs)


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class OpaqueStr:
    """A string whose content depends on symbolic values (messages, reprs)."""
    pytype = str

    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return "<str>"


class Opaque:
    """An object about which nothing is known and that is only passed around."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class Noop:
    """Logging, plotting, timing: every attribute and call gives a no-op."""

    def __repr__(self):
        return "<noop>"


NOOP = Noop()


class Native:
    """A model function: called as fn(rt, args, kwargs)."""
    pytype = type(lambda: 0)

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<native %s>" % self.name


def native(name):
    def deco(f):
        return Native(name, lambda rt, a, k: f(*a, **k))
    return deco


class PDict:
    """Dictionary whose keys may be symbolic: association list in insertion order."""
    pytype = dict

    def __init__(self, items=(), ordered=False):
        self.items_ = list(items)
        self.ordered = ordered

    def find(self, rt, key):
        for i, (k, v) in enumerate(self.items_):
            if rt.truth(rt.eq(k, key)):
                return i
        return -1


class Env:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "mod", "func", "self_", "classenv")

    def __init__(self, mod, parent=None):
        self.vars = {}
        self.parent = parent
        self.globals_ = set()
        self.nonlocals = set()
        self.mod = mod
        self.func = None
        self.self_ = None
        self.classenv = False


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
          ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
          ast.MatMult: "@"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow",
          "<<": "lshift", ">>": "rshift", "&": "and", "|": "or", "^": "xor", "@": "matmul"}
CMPOPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
CDUNDER = {"==": "__eq__", "!=": "__ne__", "<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}
SWAPPED = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


def guard_loop(s, func):
    """`for x in it: if test: raise ... (or return ...)`: (test as a generator, what is done), or None."""
    if s.orelse or func is None or len(s.body) != 1 or not isinstance(s.body[0], ast.If) or s.body[0].orelse or len(s.body[0].body) != 1:
        return None
    test, act = s.body[0].test, s.body[0].body[0]
    if not isinstance(act, (ast.Raise, ast.Return)):
        return None
    tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    if any(isinstance(x, ast.Name) and x.id in tgt for x in ast.walk(act)) or any(isinstance(x, (ast.NamedExpr, ast.Yield)) for x in ast.walk(s)):
        return None
    for x in ast.walk(func):
        if isinstance(x, ast.Name) and x.id in tgt and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno:
            return None
    gen = ast.GeneratorExp(elt=test, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=[], is_async=0)])
    ast.copy_location(gen, s)
    ast.fix_missing_locations(gen)
    return gen, act


class _Substitute(ast.NodeTransformer):
    def __init__(self, table):
        self.table = table

    def visit_Name(self, n):
        return self.table.get(n.id, n) if isinstance(n.ctx, ast.Load) else n


def append_loop(s, func):
    """`for x in it: [y = ...]; if cond: L.append(e)` as the list comprehension it is: (name of the list,
    ListComp), or None.  L is a local list that nothing else refers to before the loop, and the names bound
    in the body are not used elsewhere."""
    import copy
    if s.orelse or func is None:
        return None
    body, conds, table, effects = list(s.body), [], {}, []
    tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    while True:
        if not body:
            return None
        st = body.pop(0)
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and not conds:
            name = st.targets[0].id
            if name in table or name in tgt:
                return None
            v = _Substitute(table).visit(copy.deepcopy(st.value))
            table[name] = v
            effects.append(v)
            continue
        if isinstance(st, ast.If) and not st.orelse and not body:
            conds.append(_Substitute(table).visit(copy.deepcopy(st.test)))
            body = list(st.body)
            continue
        break
    if body or not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Call)):
        return None
    call = st.value
    if not (isinstance(call.func, ast.Attribute) and call.func.attr == "append" and isinstance(call.func.value, ast.Name)
            and len(call.args) == 1 and not call.keywords and not isinstance(call.args[0], ast.Starred)):
        return None
    L = call.func.value.id
    if L in tgt or L in table:
        return None
    inside = set()
    for x in ast.walk(s):
        inside.add(id(x))
        if isinstance(x, ast.Name) and x.id == L and x is not call.func.value:
            return None
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.FunctionDef)):
            return None
    # where the list comes from, and who else sees it
    born = None
    for x in ast.walk(func):
        if isinstance(x, (ast.Global, ast.Nonlocal)) and L in x.names:
            return None
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and x is not func and any(isinstance(y, ast.Name) and y.id == L for y in ast.walk(x)):
            return None
        if isinstance(x, ast.Assign) and any(isinstance(y, ast.Name) and y.id == L for t in x.targets for y in ast.walk(t)):
            fresh_list = isinstance(x.value, ast.List) or isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "list" and not x.value.args
            if x.lineno > s.end_lineno:
                continue
            if born is not None or not fresh_list or len(x.targets) != 1 or not isinstance(x.targets[0], ast.Name):
                return None
            born = x
        if isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For)) and isinstance(x.target, ast.Name) and x.target.id == L:
            return None
    if born is None or born.lineno > s.lineno:
        return None
    parents = {id(c): x for x in ast.walk(func) for c in ast.iter_child_nodes(x)}
    for x in ast.walk(func):
        if isinstance(x, ast.Name) and id(x) not in inside:
            if x.id == L and isinstance(x.ctx, ast.Load) and x.lineno < s.lineno:
                q = parents.get(id(x))
                if not (isinstance(q, ast.Attribute) and q.attr == "append"):
                    return None
            if (x.id in table or x.id in tgt) and isinstance(x.ctx, ast.Load) and x.lineno > s.end_lineno:
                return None
    # loops around this one must contain the birth of the list
    q = parents.get(id(s))
    while q is not None and q is not func:
        if isinstance(q, (ast.For, ast.While)) and not any(y is born for y in ast.walk(q)):
            return None
        q = parents.get(id(q))
    elt = _Substitute(table).visit(copy.deepcopy(call.args[0]))
    if effects:
        elt = ast.Subscript(value=ast.Tuple(elts=effects + [elt], ctx=ast.Load()), slice=ast.Constant(value=-1), ctx=ast.Load())
    comp = ast.ListComp(elt=elt, generators=[ast.comprehension(target=s.target, iter=s.iter, ifs=conds, is_async=0)])
    ast.copy_location(comp, s)
    ast.fix_missing_locations(comp)
    return L, comp


def counted_loop(s):
    """The for loop a while loop with a counter stands for: the counter moves by a constant once in every
    iteration, nothing else assigns it, and the bound cannot change.  None for other loops."""
    if s.orelse:
        return None
    test, more = s.test, []
    if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
        test, more = s.test.values[0], s.test.values[1:]
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1):
        return None
    ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.NotEq: "!="}
    op = ops.get(type(test.ops[0]))
    if op is None:
        return None
    flip = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "!=": "!="}

    def step_of(st, name):
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == name and isinstance(st.op, (ast.Add, ast.Sub)):
            v, sub = st.value, isinstance(st.op, ast.Sub)
        elif (isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.targets[0].id == name
              and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, (ast.Add, ast.Sub)) and isinstance(st.value.left, ast.Name) and st.value.left.id == name):
            v, sub = st.value.right, isinstance(st.value.op, ast.Sub)
        else:
            return None
        if not (isinstance(v, ast.Constant) and type(v.value) is int and v.value > 0):
            return None
        return -v.value if sub else v.value

    stores = {}
    reads, subscripted = set(), {}
    for st in s.body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
                stores[x.id] = stores.get(x.id, 0) + 1
            if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Continue, ast.Try, ast.With)):
                return None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                subscripted[x.value.id] = subscripted.get(x.value.id, 0) + 1
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name):
                subscripted[x.args[0].id] = subscripted.get(x.args[0].id, 0) + 1
    loads = {}
    for st in s.body + more:
        for x in ast.walk(st):
            if isinstance(x, ast.Name):
                loads[x.id] = loads.get(x.id, 0) + 1
            if isinstance(x, ast.NamedExpr):
                return None
    for side, other, o in ((test.left, test.comparators[0], op), (test.comparators[0], test.left, flip[op])):
        if not isinstance(side, ast.Name):
            continue
        name = side.id
        steps = [step_of(st, name) for st in s.body]
        steps = [x for x in steps if x is not None]
        if len(steps) != 1 or stores.get(name) != 1:
            continue
        lists, ok = [], True
        for x in ast.walk(other):
            if isinstance(x, ast.Name):
                if x.id in stores or x.id == name:
                    ok = False
            elif isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 and isinstance(x.args[0], ast.Name) and not x.keywords):
                    ok = False
                else:
                    lists.append(x.args[0].id)
            elif isinstance(x, ast.Attribute):
                if not (x.attr == "shape" and isinstance(x.value, ast.Name)):
                    ok = False
            elif not isinstance(x, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context, ast.Subscript)):
                ok = False
        if not ok:
            continue
        read_only = {b for b in lists if loads.get(b, 0) == subscripted.get(b, 0)}
        body = list(s.body)
        if more:
            t = more[0] if len(more) == 1 else ast.BoolOp(op=ast.And(), values=more)
            body = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=t), body=[ast.Break()], orelse=[])] + body
        node = ast.For(target=ast.Name(id=name, ctx=ast.Store()), iter=ast.Constant(value=None), body=body, orelse=[])
        ast.copy_location(node, s)
        for x in ast.walk(node):
            if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, "lineno"):
                ast.copy_location(x, s)
        node.origin, node.bound, node.step, node.op, node.lists, node.read_only = s, other, steps[0], o, lists, read_only
        return node
    return None


class Interp:
    def __init__(self, ver):
        self.ver = ver
        self.modules = {}
        self.snap = {}
        self.counted_cache = {}
        self.append_cache = {}
        self.guard_cache = {}
        self.depth = 0
        self.yields = []
        from . import lib, npmodel, seqs
        self.lib = lib
        self.np = npmodel
        self.seqs = seqs
        self.builtins = lib.builtins(self)
        from . import scipymodel
        scipymodel.install(self)

    # -- modules ------------------------------------------------------------
    def source_path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.source_path(name)
        if path is None:
            raise Unsupported("no source for module %s" % name)
        with open(path) as f:
            text = f.read()
        try:
            tree = ast.parse(text, path)
        except SyntaxError as e:
            raise Unsupported("cannot parse %s: %s" % (path, e))
        m = Module(name)
        m.ispkg = path.endswith("__init__.py")
        m.path = path
        m.env["__file__"] = path
        self.modules[name] = m
        self.ver.sources.add(path)
        env = Env(m)
        env.vars = m.env
        saved = Ctx.cur
        load = Ctx(self.ver, [])
        load.loading = True
        load.pure = 1
        for a in self.ver.global_axioms:
            load.solver.add(a)
        Ctx.cur = load
        ok = False
        try:
            self.exec_block(tree.body, env)
            ok = True
        except PyRaise as e:
            raise Unsupported("importing %s raises %r" % (name, e.exc))
        finally:
            Ctx.cur = saved
            if not ok:
                self.modules.pop(name, None)
        return m

    def import_module(self, name):
        ext = self.lib.external(self, name)
        if ext is not None:
            return ext
        return self.load(name)

    def snapshot(self):
        """Remember module-level state so that every path starts from it."""
        self.snap = {}
        self.counted_cache = {}
        self.append_cache = {}
        self.guard_cache = {}
        self.arrays = {}
        for n, m in self.modules.items():
            self.snap[n] = dict(m.env)
            for k, v in m.env.items():
                self._snap_val(v)

    def _snap_val(self, v, depth=0):
        if isinstance(v, np.ndarray):
            self.arrays[id(v)] = (v, v.copy())
        elif isinstance(v, (list, dict, PDict)) and depth < 3:
            if id(v) in self.arrays:
                return
            if isinstance(v, PDict):
                self.arrays[id(v)] = (v, list(v.items_))
                vals = [x for _, x in v.items_]
            elif isinstance(v, dict):
                self.arrays[id(v)] = (v, dict(v))
                vals = list(v.values())
            else:
                self.arrays[id(v)] = (v, list(v))
                vals = v
            for x in vals:
                self._snap_val(x, depth + 1)
        elif isinstance(v, Obj) and depth < 3:
            if id(v) in self.arrays:
                return
            self.arrays[id(v)] = (v, dict(v.attrs))
            for x in v.attrs.values():
                self._snap_val(x, depth + 1)
        elif isinstance(v, PyClass) and depth < 3:
            if id(v) in self.arrays:
                return
            self.arrays[id(v)] = (v, dict(v.env))
            for x in v.env.values():
                if not isinstance(x, PyClass):
                    self._snap_val(x, depth + 1)

    def restore(self):
        for n in list(self.modules):
            if n not in self.snap:
                continue
            env = self.modules[n].env
            env.clear()
            env.update(self.snap[n])
        for v, c in self.arrays.values():
            if isinstance(v, np.ndarray):
                v[...] = c
            elif isinstance(v, PDict):
                v.items_[:] = c
            elif isinstance(v, list):
                v[:] = c
            elif isinstance(v, dict):
                v.clear()
                v.update(c)
            elif isinstance(v, Obj):
                v.attrs.clear()
                v.attrs.update(c)
            elif isinstance(v, PyClass):
                v.env.clear()
                v.env.update(c)
        self.depth = 0
        self.yields = []

    # -- names --------------------------------------------------------------
    def lookup(self, env, name):
        e = env
        first = True
        while e is not None:
            if name in e.vars and name not in e.globals_ and (first or not e.classenv):
                v = e.vars[name]
                if v is UNBOUND:
                    self.ver.unbound_read(name)
                    raise PyRaise(UnboundLocalError(name))
                return v
            if name in e.globals_:
                break
            first = False
            e = e.parent
        if name in env.mod.env:
            return env.mod.env[name]
        if name in self.builtins:
            return self.builtins[name]
        raise PyRaise(NameError(name))

    def assign_name(self, env, name, v):
        if name in env.globals_:
            env.mod.env[name] = v
            self.ver.note_global_write(env.mod.name, name)
            return
        if name in env.nonlocals:
            if ctx() is not None and ctx().loops:
                raise Unsupported("nonlocal variable written in a loop")
            e = env.parent
            while e is not None:
                if name in e.vars and not e.classenv:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    # -- statements -----------------------------------------------------------
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (type(s).__name__, getattr(s, "lineno", "?")))
        self.ver.tick()
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Global(self, s, env):
        env.globals_.update(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_item(self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                o.attrs.pop(t.attr, None)
            else:
                raise Unsupported("del")

    def x_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(env, a.asname, m)
            else:
                top = a.name.split(".")[0]
                self.assign_name(env, top, self.import_module(top) if top != a.name else m)

    def resolve_relative(self, s, env):
        if not s.level:
            return s.module
        parts = env.mod.name.split(".")
        up = s.level - (1 if getattr(env.mod, "ispkg", False) else 0)
        if up:
            parts = parts[:-up]
        return ".".join(parts + ([s.module] if s.module else []))

    def x_ImportFrom(self, s, env):
        name = self.resolve_relative(s, env)
        if name == "__future__":
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == "*":
                if isinstance(m, Module):
                    names = m.env.get("__all__")
                    if names is None:
                        names = [k for k in m.env if not k.startswith("_")]
                    for k in names:
                        env.vars[k] = m.env[k]
                    if m.name.count(".") and getattr(env.mod, "ispkg", False):
                        env.mod.env.setdefault(m.name.split(".")[-1], m)
                else:
                    raise Unsupported("import * from %s" % name)
                continue
            if isinstance(m, Module) and a.name not in m.env:
                v = self.import_module(name + "." + a.name)
            else:
                v = self.getattr(m, a.name)
            if isinstance(m, Module) and getattr(env.mod, "ispkg", False) and s.level:
                env.mod.env.setdefault(m.name.split(".")[-1], m)
            self.assign_name(env, a.asname or a.name, v)

    def make_func(self, node, env, qual, defcls=None):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [None if d is None else self.eval(d, env) for d in a.kw_defaults]
        enc = env if env.vars is not env.mod.env else None
        if env.classenv:
            enc = env.parent
        return Func(node, enc, env.mod, qual, defaults, kwd, defcls)

    def x_FunctionDef(self, s, env):
        q = (env.func.qual + "." if env.func else env.mod.name + ".") + s.name
        if env.classenv:
            q = env.mod.name + "." + env.vars["__qualname__"] + "." + s.name
        f = self.make_func(s, env, q)
        for d in reversed(s.decorator_list):
            dec = self.eval(d, env)
            f = self.call(dec, [f], {})
        self.assign_name(env, s.name, f)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        if s.keywords:
            raise Unsupported("class keywords")
        cenv = Env(env.mod, env if env.vars is not env.mod.env else None)
        cenv.classenv = True
        cenv.func = None
        cenv.vars["__qualname__"] = s.name
        cls = PyClass(s.name, [b for b in bases if b is not object], cenv.vars, env.mod)
        isenum = any(b is self.lib.ENUM or (isinstance(b, PyClass) and b.members is not None) for b in bases)
        self.exec_block(s.body, cenv)
        for v in list(cenv.vars.values()):
            for f in ([v.fget, v.fset] if isinstance(v, Prop) else [v.f] if isinstance(v, (StaticM, ClassM)) else [v]):
                if isinstance(f, Func) and f.defcls is None:
                    f.defcls = cls
        if isenum:
            cls.members = {}
            n = 0
            for k, v in list(cenv.vars.items()):
                if k.startswith("__") or isinstance(v, (Func, Prop, StaticM, ClassM)):
                    continue
                if v is self.lib.AUTO:
                    n += 1
                    v = n
                elif isinstance(v, int):
                    n = v
                o = Obj(cls)
                o.attrs = {"name": k, "value": v}
                cls.members[k] = o
                cenv.vars[k] = o
        r = cls
        for d in reversed(s.decorator_list):
            r = self.call(self.eval(d, env), [r], {})
        self.assign_name(env, s.name, r)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                vals = self.to_list(v)
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vals[i:len(vals) - tail], env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, env)
            else:
                vals = self.unpack(v, len(t.elts))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)):
            vals = list(v)
        else:
            vals = self.seqs.unpack(self, v, n)
            if vals is None:
                vals = self.to_list(v)
        if len(vals) != n:
            raise PyRaise(ValueError("wrong number of values to unpack"))
        return vals

    def x_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.eval(s.value, env)
            self.assign_name(env, t.id, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            v = self.eval(s.value, env)
            self.set_item(o, i, self.inplace(op, self.get_item(o, i), v))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            v = self.eval(s.value, env)
            self.setattr(o, t.attr, self.inplace(op, self.getattr(o, t.attr), v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, a, b):
        if isinstance(a, list) and op == "+":
            self.ver.note_write(a, None)
            a.extend(self.to_list(b))
            return a
        if isinstance(a, Obj):
            f = a.cls.lookup("__i%s__" % DUNDER[op])
            if f is not None:
                return self.call(Bound(f, a), [b], {})
        r = self.np.inplace(self, op, a, b)
        if r is not NotImplemented:
            return r
        r = self.seqs.inplace(self, op, a, b)
        if r is not NotImplemented:
            return r
        return self.binop(op, a, b)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError())

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(env, "_exc", None) or self.cur_exc
            if cur is None:
                raise PyRaise(RuntimeError("No active exception"))
            raise PyRaise(cur)
        e = self.eval(s.exc, env)
        if isinstance(e, type) or isinstance(e, PyClass):
            e = self.call(e, [], {})
        raise PyRaise(e)

    cur_exc = None

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    types = self.eval(h.type, env) if h.type is not None else BaseException
                    if self.isinstance(e.exc, types) is True:
                        saved = self.cur_exc
                        self.cur_exc = e.exc
                        if h.name:
                            self.assign_name(env, h.name, e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc = saved
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        finally:
            if s.finalbody:
                self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        for it in s.items:
            v = self.eval(it.context_expr, env)
            if v is not NOOP:
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, NOOP, env)
        self.exec_block(s.body, env)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        sym = self.seqs.symbolic_iter(self, it)
        if sym is not None:
            if self.guards(s, env, sym) or self.appends(s, env, sym):
                return
            return self.ver.cut_for(self, s, env, sym)
        try:
            for x in self.iterate(it):
                self.assign(s.target, x, env)
                try:
                    self.exec_block(s.body, env)
                except ContinueSig:
                    continue
            else:
                self.exec_block(s.orelse, env)
        except BreakSig:
            pass

    def guards(self, s, env, sym):
        """A loop that only looks for an element and leaves: done as any(...)."""
        t = self.ver.task
        if t is None or t.invariants is not None and "quant" not in t.uses:
            return False
        if id(s) not in self.guard_cache:
            self.guard_cache[id(s)] = (s, guard_loop(s, env.func.node if env.func is not None else None))
        r = self.guard_cache[id(s)][1]
        if r is None:
            return False
        gen, act = r
        seq = self.seqs.comprehension(self, gen, env, sym, "gen")
        if self.truth(self.call(self.builtins["any"], [seq], {})):
            self.exec(act, env)
        return True

    def appends(self, s, env, sym):
        """A loop that only fills a list: done as a comprehension."""
        if self.ver.task is not None and ("list-append" in self.ver.task.uses or "havoc-list" in self.ver.task.uses):
            return False
        if id(s) not in self.append_cache:
            self.append_cache[id(s)] = (s, append_loop(s, env.func.node if env.func is not None else None))
        r = self.append_cache[id(s)][1]
        if r is None:
            return False
        L, comp = r
        old = env.vars.get(L, UNBOUND)
        if not isinstance(old, list) and not isinstance(old, self.seqs.SList):
            return False
        new = self.seqs.comprehension(self, comp, env, sym, "list")
        if isinstance(old, list) and not old:
            env.vars[L] = new
        else:
            env.vars[L] = self.binop("+", old, new)
        return True

    def counted(self, s, env):
        """`while i < bound [and more]: ...; i += c; ...` as the for loop over a range it is, or None."""
        if id(s) in self.counted_cache:
            node = self.counted_cache[id(s)][1]
        else:
            node = counted_loop(s)
            self.counted_cache[id(s)] = (s, node)
        if node is None:
            return None
        name = node.target.id
        i0 = env.vars.get(name, UNBOUND)
        if isinstance(i0, bool) or not (isinstance(i0, int) or isinstance(i0, S) and sort_of(i0.e) == "i"):
            return None
        for b in node.lists:
            v = env.vars.get(b, UNBOUND)
            if v is UNBOUND or not (isinstance(v, (tuple, np.ndarray)) or self.seqs.fixed_length(v) or b in node.read_only):
                return None
        bound = self.eval(node.bound, env)
        if isinstance(bound, bool) or not (isinstance(bound, int) or isinstance(bound, S) and sort_of(bound.e) == "i"):
            return None
        step, op = node.step, node.op
        if abs(step) != 1:
            return None
        if op == "!=":
            c = Ctx.cur
            off = self.compare("<" if step > 0 else ">", bound, i0)
            if off is True or isinstance(off, S) and c.feasible(tobool(off)):
                return None
        elif (op in ("<", "<=")) != (step > 0):
            return None
        if op == "<=":
            bound = self.binop("+", bound, 1)
        elif op == ">=":
            bound = self.binop("-", bound, 1)
        return node, self.call(self.builtins["range"], [i0, bound, step], {})

    def x_While(self, s, env):
        as_for = self.counted(s, env)
        if as_for is not None:
            node, it = as_for
            sym = self.seqs.symbolic_iter(self, it)
            if sym is not None:
                return self.ver.cut_for(self, node, env, sym)
            items = self.seqs.concrete_iter(self, it) if not isinstance(it, range) else it
            if len(items) <= 1000:
                try:
                    for x in items:
                        self.exec_block(node.body, env)
                except BreakSig:
                    pass
                return
        n = 0
        try:
            while True:
                c = self.eval(s.test, env)
                if isinstance(c, S):
                    e = z3.simplify(c.e) if sort_of(c.e) == "b" else z3.simplify(c.e != 0)
                    if not (z3.is_true(e) or z3.is_false(e)):
                        if n > 0:
                            raise Unsupported("while loop with a partly symbolic condition")
                        return self.ver.cut_while(self, s, env)
                if not self.truth(c):
                    break
                n += 1
                if n > 100000:
                    raise Unsupported("too many iterations")
                try:
                    self.exec_block(s.body, env)
                except ContinueSig:
                    pass
            self.exec_block(s.orelse, env)
        except BreakSig:
            pass

    # -- expressions --------------------------------------------------------
    def eval(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        if isinstance(v, float):
            return Fraction(v) if v == v and abs(v) != float("inf") else v
        if isinstance(v, complex):
            return Cx(Fraction(v.real), Fraction(v.imag))
        return v

    def e_Name(self, n, env):
        return self.lookup(env, n.id)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        if env.func is None and env.parent is not None:
            raise Unsupported("assignment expression in a comprehension")
        self.assign_name(env, n.target.id, v)
        return v

    def e_Attribute(self, n, env):
        return self.getattr(self.eval(n.value, env), n.attr)

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env)
                sym = self.seqs.symbolic_iter(self, v)
                if sym is not None:
                    if len(elts) == 1:
                        return self.seqs.seq_of_iter(self, sym)
                    out.append(self.seqs.StarArgs(self.seqs.seq_of_iter(self, sym)))
                    continue
                out.extend(self.to_list(v))
            else:
                out.append(self.eval(e, env))
        if any(isinstance(x, self.seqs.StarArgs) for x in out):
            return self.seqs.join_elts(self, out)
        return out

    def e_Tuple(self, n, env):
        v = self.elts(n.elts, env)
        return tuple(v) if isinstance(v, list) else v

    def e_List(self, n, env):
        if not n.elts:
            return self.empty("list", [])
        v = self.elts(n.elts, env)
        return v if isinstance(v, list) else self.seqs.SList(v.n, v.fn)

    def empty(self, kind, default):
        """A new empty list/dict/set: the contract under proof may ask for a symbolic model."""
        t = self.ver.task
        h = t.uses.get("new-" + kind) if t is not None and Ctx.cur is not None and not Ctx.cur.loading else None
        return default if h is None else h(self)

    def e_Set(self, n, env):
        v = self.elts(n.elts, env)
        if not isinstance(v, list):
            return self.seqs.sym_set(self, v)
        return self.lib.make_set(self, v)

    def e_Dict(self, n, env):
        d = self.empty("dict", PDict()) if not n.keys else PDict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                src = self.eval(v, env)
                for kk, vv in self.lib.dict_items(self, src):
                    self.set_item(d, kk, vv)
            else:
                self.set_item(d, self.eval(k, env), self.eval(v, env))
        return d

    def e_Subscript(self, n, env):
        return self.get_item(self.eval(n.value, env), self.eval_index(n.slice, env))

    def eval_index(self, n, env):
        if isinstance(n, ast.Slice):
            f = lambda x: None if x is None else self.eval(x, env)
            return slice(f(n.lower), f(n.upper), f(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.eval_index(e, env) for e in n.elts)
        return self.eval(n, env)

    e_Slice = eval_index

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        return self.binop(BINOPS[type(n.op)], a, b)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        if isinstance(n.op, ast.Not):
            if isinstance(v, S):
                e = v.e if sort_of(v.e) == "b" else v.e != 0
                return S(z3.Not(e))
            return not self.truth(v)
        if isinstance(v, Obj):
            nm = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)]
            f = v.cls.lookup(nm)
            if f is None:
                raise PyRaise(TypeError("bad operand type for unary operator"))
            return self.call(Bound(f, v), [], {})
        if isinstance(n.op, ast.USub):
            return self.np.negate(self, v)
        if isinstance(n.op, ast.UAdd):
            return v
        return self.np.invert(self, v)

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        vals = n.values
        v = self.eval(vals[0], env)
        for k, nx in enumerate(vals[1:]):
            if isinstance(v, S) and ctx() is not None and ctx().pure:
                e = v.e if sort_of(v.e) == "b" else v.e != 0
                if not (z3.is_true(z3.simplify(e)) or z3.is_false(z3.simplify(e))):
                    w = self.eval(nx, env)
                    we = self.as_bool_term(w)
                    v = S(z3.And(e, we) if isand else z3.Or(e, we))
                    continue
            if isinstance(v, S) and sort_of(v.e) == "b" and self.quiet(nx):
                # no side effect, no exception: evaluate without splitting the path
                e = z3.simplify(v.e)
                if not (z3.is_true(e) or z3.is_false(e)):
                    w = self.try_quiet(nx, env)
                    if w is not None:
                        v = S(z3.And(e, w) if isand else z3.Or(e, w))
                        continue
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, S) else False
            if not isand and t:
                return v if not isinstance(v, S) else True
            v = self.eval(nx, env)
        return v

    def as_bool_term(self, w):
        if isinstance(w, S):
            return w.e if sort_of(w.e) == "b" else w.e != 0
        if isinstance(w, (bool, np.bool_)):
            return z3.BoolVal(bool(w))
        if isinstance(w, (int, Fraction)) or w is None or isinstance(w, (str, tuple, list)):
            return z3.BoolVal(bool(w))
        raise Unsupported("truth value of %r in a pure context" % (w,))

    def quiet(self, n):
        """Comparisons and names only: evaluation order does not matter."""
        for x in ast.walk(n):
            if not isinstance(x, (ast.Compare, ast.Name, ast.Attribute, ast.Constant, ast.cmpop, ast.BoolOp,
                                  ast.boolop, ast.UnaryOp, ast.unaryop, ast.Load, ast.BinOp, ast.operator,
                                  ast.Subscript, ast.Call, ast.Tuple)):
                return False
            if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Div, ast.FloorDiv, ast.Mod)):
                return False
        return True

    def try_quiet(self, n, env):
        c = ctx()
        c.pure += 1
        try:
            w = self.eval(n, env)
            if isinstance(w, (S, bool, np.bool_)):
                return self.as_bool_term(w)
            return None
        except (Unsupported, PyRaise):
            return None
        finally:
            c.pure -= 1

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        acc = None
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn, env)
            r = self.cmp1(op, left, right)
            if len(n.ops) == 1:
                return r
            if acc is None:
                acc = r
            else:
                acc = self.land(acc, r)
            if not isinstance(acc, S) and not isinstance(acc, np.ndarray) and not self.truth(acc):
                return acc
            left = right
        return acc

    def land(self, a, b):
        if isinstance(a, S) or isinstance(b, S):
            return S(z3.And(self.as_bool_term(a), self.as_bool_term(b)))
        return b if self.truth(a) else a

    def cmp1(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else (not r if not isinstance(r, S) else S(z3.Not(r.e)))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.In):
                return r
            return S(z3.Not(r.e)) if isinstance(r, S) else not r
        return self.rich(CMPOPS[type(op)], a, b)

    def is_(self, a, b):
        if isinstance(a, S) and isinstance(b, bool) or isinstance(b, S) and isinstance(a, bool):
            s = a if isinstance(a, S) else b
            c = b if isinstance(a, S) else a
            if s.pytype is bool:
                return S(s.e == c)
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            if a.merged or b.merged:
                raise Unsupported("identity of one of several objects")
            if a.tag is not None and b.tag is not None:
                return S(zi(a.tag) == zi(b.tag)) if isinstance(a.tag, S) or isinstance(b.tag, S) else a.tag == b.tag
            return False
        if isinstance(a, (int, str)) and not isinstance(a, bool) and type(a) is type(b):
            return a == b
        return a is b

    def e_IfExp(self, n, env):
        c = self.eval(n.test, env)
        if isinstance(c, S):
            e = c.e if sort_of(c.e) == "b" else c.e != 0
            e = z3.simplify(e)
            if not (z3.is_true(e) or z3.is_false(e)):
                if ctx().pure or (self.quiet(n.body) and self.quiet(n.orelse)):
                    ctx().pure += 1
                    try:
                        a = self.eval(n.body, env)
                        b = self.eval(n.orelse, env)
                        return ite(e, a, b)
                    except Unsupported:
                        if ctx().pure > 1:
                            raise
                    except PyRaise:
                        if ctx().pure > 1:
                            raise Unsupported("exception in a pure context")
                    finally:
                        ctx().pure -= 1
        return self.eval(n.body, env) if self.truth(c) else self.eval(n.orelse, env)

    def e_Lambda(self, n, env):
        return self.make_func(n, env, env.mod.name + ".<lambda>")

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                parts.append(x)
        if all(isinstance(p, (str, int)) for p in parts):
            return "".join(str(p) for p in parts)
        return OpaqueStr(tuple(parts))

    def e_Yield(self, n, env):
        v = self.eval(n.value, env) if n.value is not None else None
        self.yields[-1].append(v)
        return None

    def e_YieldFrom(self, n, env):
        self.yields[-1].extend(self.to_list(self.eval(n.value, env)))
        return None

    def e_Starred(self, n, env):
        raise Unsupported("starred expression")

    def e_Call(self, n, env):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            e = env
            while e is not None and e.func is None:
                e = e.parent
            return Super(e.func.defcls, e.self_)
        f = self.eval(n.func, env)
        if isinstance(f, Noop):
            return NOOP
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                sym = self.seqs.symbolic_iter(self, v)
                if sym is not None:
                    args.append(self.seqs.StarArgs(self.seqs.seq_of_iter(self, sym)))
                else:
                    args.extend(self.to_list(v))
            else:
                args.append(self.eval(a, env))
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.lib.dict_items(self, self.eval(k.value, env)):
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw)

    # comprehensions
    def comp_symbolic(self, n, env):
        """One generator over a symbolic-length iterable: a lazily evaluated sequence."""
        g = n.generators[0]
        it = self.eval(g.iter, env)
        sym = self.seqs.symbolic_iter(self, it)
        return it, sym

    def e_ListComp(self, n, env, want="list"):
        it, sym = self.comp_symbolic(n, env)
        if sym is not None:
            r = self.seqs.comprehension(self, n, env, sym, want)
            return r
        out = []
        self.comp_loop(n.generators, 0, self.comp_env(env), lambda e: out.append(self.eval(n.elt, e)), it)
        return out

    def comp_env(self, env):
        e = Env(env.mod, env if not env.classenv else env)
        e.func = None
        return e

    def comp_loop(self, gens, i, env, emit, first=None):
        if i == len(gens):
            emit(env)
            return
        g = gens[i]
        it = first if i == 0 and first is not None else self.eval(g.iter, env)
        if self.seqs.symbolic_iter(self, it) is not None:
            raise Unsupported("nested comprehension over a symbolic-length iterable")
        for x in self.iterate(it):
            self.assign(g.target, x, env)
            ok = True
            for c in g.ifs:
                if not self.truth(self.eval(c, env)):
                    ok = False
                    break
            if ok:
                self.comp_loop(gens, i + 1, env, emit)

    def e_GeneratorExp(self, n, env):
        it, sym = self.comp_symbolic(n, env)
        if sym is not None:
            return self.seqs.comprehension(self, n, env, sym, "gen")
        return self.gen_lazy(n, env, it)

    def gen_lazy(self, n, env, it):
        rt = self

        def rec(i, e, first):
            if i == len(n.generators):
                yield rt.eval(n.elt, e)
                return
            g = n.generators[i]
            src = first if first is not None else rt.eval(g.iter, e)
            if rt.seqs.symbolic_iter(rt, src) is not None:
                raise Unsupported("nested comprehension over a symbolic-length iterable")
            for x in rt.iterate(src):
                rt.assign(g.target, x, e)
                ok = True
                for c in g.ifs:
                    if not rt.truth(rt.eval(c, e)):
                        ok = False
                        break
                if ok:
                    yield from rec(i + 1, e, None)
        return rec(0, self.comp_env(env), it)

    def e_SetComp(self, n, env):
        it, sym = self.comp_symbolic(n, env)
        if sym is not None:
            return self.seqs.comprehension(self, n, env, sym, "set")
        out = []
        self.comp_loop(n.generators, 0, self.comp_env(env), lambda e: out.append(self.eval(n.elt, e)), it)
        return self.lib.make_set(self, out)

    def e_DictComp(self, n, env):
        it, sym = self.comp_symbolic(n, env)
        if sym is not None:
            return self.seqs.dict_comprehension(self, n, env, sym)
        d = PDict()

        def emit(e):
            self.set_item(d, self.eval(n.key, e), self.eval(n.value, e))
        self.comp_loop(n.generators, 0, self.comp_env(env), emit, it)
        return d

    # -- semantics of values ----------------------------------------------------
    def truth(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, S):
            return bool(v)
        if v is None:
            return False
        if isinstance(v, (int, float, Fraction, str, tuple, list, set, frozenset)):
            return bool(v)
        if isinstance(v, Cx):
            return bool(v)
        if isinstance(v, PDict):
            return len(v.items_) > 0
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return self.truth(v.reshape(-1)[0])
            raise PyRaise(ValueError("The truth value of an array is ambiguous"))
        if isinstance(v, Obj):
            f = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (Func, Bound, PyClass, Native, Module)):
            return True
        if isinstance(v, OpaqueStr):
            raise Unsupported("truth value of an opaque string")
        r = self.seqs.truth(self, v)
        if r is not None:
            return r
        if callable(v) or isinstance(v, type):
            return True
        raise Unsupported("truth value of %r" % (v,))

    def type_of(self, v):
        if isinstance(v, (S, Cx)):
            return v.pytype
        if isinstance(v, Fraction):
            return float
        if isinstance(v, (Obj, Func, Bound, Native, OpaqueStr, PDict, PyClass)):
            return v.pytype
        if isinstance(v, np.ndarray):
            return np.ndarray
        p = getattr(v, "pytype", None)
        if p is not None:
            return p
        return type(v)

    def isinstance(self, v, T):
        if isinstance(T, tuple):
            res = False
            for t in T:
                r = self.isinstance(v, t)
                if r is True:
                    return True
                if isinstance(r, S):
                    res = r if res is False else S(z3.Or(res.e, r.e))
            return res
        ty = self.type_of(v)
        if T is self.lib.ENUM:
            return isinstance(ty, PyClass) and ty.members is not None
        if isinstance(T, PyClass):
            if isinstance(ty, PyClass):
                return ty.issub(T)
            return False
        if isinstance(T, self.lib.ModelClass):
            return isinstance(v, T.real) if T.real else False
        f = getattr(T, "isinstance_", None)
        if f is not None:
            return f(self, v)
        if not isinstance(T, type):
            if isinstance(T, Opaque) or isinstance(T, Noop):
                raise Unsupported("isinstance with %r" % (T,))
            raise PyRaise(TypeError("isinstance() arg 2 must be a type"))
        if isinstance(ty, PyClass):
            return T is object or ty.issub(T)
        return issubclass(ty, T)

    def eq(self, a, b):
        return self.rich("==", a, b)

    def rich(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.rich_obj(op, a, b)
        r = self.np.compare(self, op, a, b)
        if r is not NotImplemented:
            return r
        r = self.seqs.compare(self, op, a, b)
        if r is not NotImplemented:
            return r
        if is_num(a) and is_num(b):
            return compare(op, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if type(a) is not type(b):
                if op in ("==", "!="):
                    return op == "!="
                raise PyRaise(TypeError("not comparable"))
            return self.lex(op, a, b)
        if op in ("==", "!="):
            if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
                raise Unsupported("comparison of opaque strings")
            if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
                return (a == b) == (op == "==")
            if isinstance(a, PDict) and isinstance(b, PDict):
                r = self.lib.dict_eq(self, a, b)
                return r if op == "==" else (S(z3.Not(r.e)) if isinstance(r, S) else not r)
            if is_num(a) or is_num(b):
                return op == "!="
            r = a is b or (type(a) is type(b) and isinstance(a, (str, bytes, type(None), range, type)) and a == b)
            return r if op == "==" else not r
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            raise Unsupported("comparison of opaque strings")
        raise PyRaise(TypeError("'%s' not supported between %s and %s" % (op, self.type_of(a), self.type_of(b))))

    def rich_obj(self, op, a, b):
        ca = a.cls if isinstance(a, Obj) else None
        cb = b.cls if isinstance(b, Obj) else None
        tries = [(a, b, op), (b, a, SWAPPED[op])]
        if ca is not None and cb is not None and cb is not ca and cb.issub(ca) and cb.lookup(CDUNDER[SWAPPED[op]]) is not None:
            tries.reverse()
        for x, y, o in tries:
            if not isinstance(x, Obj):
                continue
            f = x.cls.lookup(CDUNDER[o])
            if f is None and o == "!=":
                g = x.cls.lookup("__eq__")
                if g is not None:
                    r = self.call(Bound(g, x), [y], {})
                    if r is not NotImplemented:
                        return S(z3.Not(self.as_bool_term(r))) if isinstance(r, S) else not self.truth(r)
                continue
            if f is None:
                continue
            r = self.call(Bound(f, x), [y], {})
            if r is not NotImplemented:
                return r
        if op in ("==", "!="):
            same = self.is_(a, b)
            if op == "==":
                return same
            return S(z3.Not(same.e)) if isinstance(same, S) else not same
        raise PyRaise(TypeError("'%s' not supported between instances" % op))

    def lex(self, op, a, b):
        """Lexicographic comparison of tuples or lists as one formula."""
        if op in ("==", "!="):
            if len(a) != len(b):
                return op == "!="
            acc = True
            for x, y in zip(a, b):
                acc = self.conj(acc, self.eq_item(x, y))
                if acc is False:
                    break
            if op == "==":
                return acc
            return S(z3.Not(acc.e)) if isinstance(acc, S) else not acc
        # ordering
        n = min(len(a), len(b))
        cases = []
        prefix = []
        decided = False
        strict = {"<": "<", "<=": "<", ">": ">", ">=": ">"}[op]
        for i in range(n):
            e = self.eq_item(a[i], b[i])
            if e is True:
                continue
            lt = self.rich(strict, a[i], b[i])
            cases.append(z3.And(*(prefix + [self.as_bool_term(lt)])))
            if e is False:
                decided = True
                break
            prefix.append(self.as_bool_term(e))
        if not decided:
            tail = {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op]
            cases.append(z3.And(*(prefix + [z3.BoolVal(tail)])))
        f = z3.simplify(z3.Or(*cases))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return S(f)

    def eq_item(self, x, y):
        """== inside containers (identity implies equality)."""
        if x is y:
            return True
        r = self.eq(x, y)
        if isinstance(r, S):
            e = z3.simplify(self.as_bool_term(r))
            if z3.is_true(e):
                return True
            if z3.is_false(e):
                return False
            return S(e)
        return self.truth(r)

    def conj(self, a, b):
        if a is True:
            return b
        if b is True:
            return a
        if a is False or b is False:
            return False
        return S(z3.And(a.e, b.e))

    def contains(self, c, x):
        if isinstance(c, (tuple, list)):
            acc = False
            for y in c:
                e = self.eq_item(y, x)
                if e is True:
                    return True
                if e is False:
                    continue
                acc = e if acc is False else S(z3.Or(acc.e, e.e))
            return acc
        if isinstance(c, PDict):
            return self.contains([k for k, _ in c.items_], x)
        if isinstance(c, (set, frozenset)):
            return self.contains(list(c), x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, range):
            if isinstance(x, int):
                return x in c
            if isinstance(x, S):
                return self.contains(list(c), x)
            return False
        if isinstance(c, Obj):
            f = c.cls.lookup("__contains__")
            if f is not None:
                r = self.call(Bound(f, c), [x], {})
                return r if isinstance(r, S) else self.truth(r)
        r = self.seqs.contains(self, c, x)
        if r is not NotImplemented:
            return r
        if isinstance(c, np.ndarray):
            return self.contains(list(c.reshape(-1)), x)
        try:
            return self.contains(list(self.iterate(c)), x)
        except PyRaise:
            raise

    def binop(self, op, a, b):
        if isinstance(a, Obj) or isinstance(b, Obj):
            order = [(a, b, "__%s__"), (b, a, "__r%s__")]
            for x, y, pat in order:
                if isinstance(x, Obj):
                    if pat == "__r%s__" and isinstance(y, Obj) and y.cls is x.cls:
                        continue
                    f = x.cls.lookup(pat % DUNDER[op])
                    if f is not None:
                        r = self.call(Bound(f, x), [y], {})
                        if r is not NotImplemented:
                            return r
            raise PyRaise(TypeError("unsupported operand type(s) for %s" % op))
        r = self.np.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        r = self.seqs.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        if is_num(a) and is_num(b):
            try:
                r = arith(op, a, b)
            except ZeroDivisionError as e:
                raise PyRaise(e)
            if isinstance(r, float):
                r = Fraction(r)
            return r
        if op == "+" and isinstance(a, (tuple, list, str)) and type(a) is type(b):
            return a + b
        if op == "*" and isinstance(a, (tuple, list, str)) and isinstance(b, int):
            return a * b
        if op == "*" and isinstance(b, (tuple, list, str)) and isinstance(a, int):
            return a * b
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"&": a & b, "|": a | b, "-": a - b, "^": a ^ b}[op]
        if op == "%" and isinstance(a, str):
            return OpaqueStr((a, b))
        if op == "+" and isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
            return OpaqueStr((a, b))
        for x in (a, b):
            if getattr(x, "model", False) and not getattr(x, "no_operators", False):
                raise Unsupported("operator %s on %s" % (op, type(x).__name__))
        raise PyRaise(TypeError("unsupported operand type(s) for %s: %s and %s" % (op, self.type_of(a), self.type_of(b))))

    # -- attributes ---------------------------------------------------------
    def getattr(self, o, name):
        if isinstance(o, Obj):
            return self.getattr_obj(o, name)
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            sub = o.name + "." + name
            if sub in self.modules:
                return self.modules[sub]
            if self.source_path(sub):
                return self.load(sub)
            raise PyRaise(AttributeError(name))
        if isinstance(o, Noop):
            return NOOP
        if isinstance(o, PyClass):
            if name == "__name__":
                return o.name
            if name == "__members__" and o.members is not None:
                return PDict(o.members.items())
            v = o.lookup(name)
            if v is None:
                if name == "__init__":
                    return Native("object.__init__", lambda rt, a, k: None)
                raise PyRaise(AttributeError(name))
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            return v
        if isinstance(o, Super):
            i = o.obj.cls.mro.index(o.cls)
            for c in o.obj.cls.mro[i + 1:]:
                if isinstance(c, PyClass) and name in c.env:
                    return self.bind(c.env[name], o.obj)
            if name == "__init__":
                return Native("object.__init__", lambda rt, a, k: None)
            if name in ("__eq__", "__ne__", "__lt__", "__gt__", "__le__", "__ge__"):
                return Native(name, lambda rt, a, k: NotImplemented)
            raise PyRaise(AttributeError(name))
        if isinstance(o, Prop):
            if name == "setter":
                return Native("setter", lambda rt, a, k: Prop(o.fget, a[0]))
            if name == "getter":
                return Native("getter", lambda rt, a, k: Prop(a[0], o.fset))
            if name == "fget":
                return o.fget
        if isinstance(o, Func):
            if name == "__name__":
                return o.qual.split(".")[-1]
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return None
        if name == "__class__":
            return self.type_of(o)
        v = self.lib.attribute(self, o, name)
        if v is not NotImplemented:
            return v
        t = self.type_of(o)
        plain = t in (bool, int, float, complex, str, bytes, list, tuple, dict, set, frozenset, type(None)) or isinstance(o, np.ndarray)
        if not plain or getattr(o, "model", False) or hasattr(t, name) or hasattr(np.float64, name) or isinstance(o, (Opaque, Native)):
            raise Unsupported("attribute %s of %r is not modelled" % (name, o))
        raise PyRaise(AttributeError("%s has no attribute %s" % (t, name)))

    def bind(self, v, o):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, Prop):
            return self.call(Bound(v.fget, o), [], {})
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, o.cls if isinstance(o, Obj) else o)
        if isinstance(v, Native):
            return Bound(v, o)
        return v

    def getattr_obj(self, o, name):
        v = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(Bound(v.fget, o), [], {})
        if name in o.attrs:
            return o.attrs[name]
        if v is not None:
            return self.bind(v, o)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return PDict(o.attrs.items())
        if name in ("__hash__",):
            return Native("hash", lambda rt, a, k: self.lib.hash_(self, o))
        if any(isinstance(c, type) and issubclass(c, BaseException) for c in o.cls.mro):
            if name == "args":
                return o.attrs.get("args", ())
            if name == "__init__":
                return Native("init", lambda rt, a, k: None)
        f = o.cls.lookup("__getattr__")
        if f is not None:
            return self.call(Bound(f, o), [name], {})
        if name in CDUNDER.values():
            return Native(name, lambda rt, a, k: NotImplemented)
        if "code" in o.attrs:
            raise Unsupported("internal attribute %s of an abstract %s" % (name, o.cls.name))
        raise PyRaise(AttributeError("%s object has no attribute %s" % (o.cls.name, name)))

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyRaise(AttributeError("can't set attribute"))
                self.call(Bound(p.fset, o), [v], {})
                return
            if isinstance(o.cls.lookup("__setattr__"), Func):
                self.call(Bound(o.cls.lookup("__setattr__"), o), [name, v], {})
                return
            self.ver.note_write(o, name)
            if getattr(o, "merged", False):
                raise Unsupported("write to one of several objects")
            o.attrs[name] = v
            return
        if isinstance(o, Func):
            if getattr(o, "merged", False):
                raise Unsupported("write to one of several objects")
            o.attrs[name] = v
            return
        if isinstance(o, PyClass):
            o.env[name] = v
            return
        if isinstance(o, Module):
            o.env[name] = v
            return
        if isinstance(o, Noop):
            return
        if self.lib.set_attribute(self, o, name, v):
            return
        raise PyRaise(AttributeError("cannot set %s" % name))

    # -- subscripts ---------------------------------------------------------
    def get_item(self, o, i):
        if isinstance(o, Noop):
            return NOOP
        if isinstance(o, (tuple, list, str)):
            if isinstance(i, slice):
                try:
                    return o[self.conc_slice(i)]
                except ValueError as e:
                    raise PyRaise(e)
            if isinstance(i, S):
                return self.sym_index(o, i)
            if isinstance(i, Fraction) or isinstance(i, (tuple, list, str)) or i is None:
                raise PyRaise(TypeError("indices must be integers"))
            try:
                return o[int(i)]
            except IndexError as e:
                raise PyRaise(e)
        if isinstance(o, PDict):
            k = o.find(self, i)
            if k < 0:
                raise PyRaise(KeyError(i))
            return o.items_[k][1]
        r = self.np.get_item(self, o, i)
        if r is not NotImplemented:
            return r
        r = self.seqs.get_item(self, o, i)
        if r is not NotImplemented:
            return r
        if isinstance(o, PyClass) and o.members is not None:
            if i in o.members:
                return o.members[i]
            raise PyRaise(KeyError(i))
        if isinstance(o, Obj):
            f = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call(Bound(f, o), [i], {})
        if isinstance(o, range):
            if isinstance(i, slice):
                return o[self.conc_slice(i)]
            try:
                return o[i] if not isinstance(i, S) else self.sym_index(list(o), i)
            except IndexError as e:
                raise PyRaise(e)
        raise PyRaise(TypeError("%s is not subscriptable" % self.type_of(o)))

    def conc_slice(self, s):
        def f(x):
            if x is None or isinstance(x, int):
                return x
            if isinstance(x, S):
                return x.__index__()
            if isinstance(x, np.integer):
                return int(x)
            raise PyRaise(TypeError("slice indices must be integers"))
        return slice(f(s.start), f(s.stop), f(s.step))

    def sym_index(self, o, i):
        e = z3.simplify(zi(i))
        if z3.is_int_value(e):
            return self.get_item(o, e.as_long())
        n = len(o)
        if not self.truth(S(z3.And(e >= -n, e < n))):
            raise PyRaise(IndexError("index out of range"))
        if not n:
            raise PyRaise(IndexError("index out of range"))
        if all(is_num(x) for x in o):
            r = o[n - 1]
            for k in range(n - 2, -1, -1):
                r = ite(z3.Or(e == k, e == k - n), o[k], r)
            return r
        for k in range(n - 1):
            if self.truth(S(z3.Or(e == k, e == k - n))):
                return o[k]
        return o[n - 1]

    def set_item(self, o, i, v):
        self.ver.note_write(o, None)
        if isinstance(o, list):
            if isinstance(i, slice):
                o[self.conc_slice(i)] = self.to_list(v)
                return
            if isinstance(i, S):
                e = z3.simplify(zi(i))
                if not z3.is_int_value(e):
                    n = len(o)
                    if not self.truth(S(z3.And(e >= -n, e < n))):
                        raise PyRaise(IndexError("assignment index out of range"))
                    for k in range(n):
                        if k == n - 1 or self.truth(S(z3.Or(e == k, e == k - n))):
                            o[k] = v
                            return
                i = e.as_long()
            try:
                o[i] = v
            except IndexError as ex:
                raise PyRaise(ex)
            return
        if isinstance(o, PDict):
            self.lib.check_hashable(self, i)
            k = o.find(self, i)
            if k < 0:
                o.items_.append((i, v))
            else:
                o.items_[k] = (o.items_[k][0], v)
            return
        if self.np.set_item(self, o, i, v):
            return
        if self.seqs.set_item(self, o, i, v):
            return
        if isinstance(o, Obj):
            f = o.cls.lookup("__setitem__")
            if f is not None:
                self.call(Bound(f, o), [i, v], {})
                return
        raise PyRaise(TypeError("object does not support item assignment"))

    def del_item(self, o, i):
        self.ver.note_write(o, None)
        if isinstance(o, list):
            try:
                del o[self.conc_slice(i) if isinstance(i, slice) else i]
            except IndexError as e:
                raise PyRaise(e)
            return
        if isinstance(o, PDict):
            k = o.find(self, i)
            if k < 0:
                raise PyRaise(KeyError(i))
            del o.items_[k]
            return
        raise Unsupported("del item")

    # -- iteration -----------------------------------------------------------
    def iterate(self, it):
        if isinstance(it, (list,)):
            i = 0
            while i < len(it):
                yield it[i]
                i += 1
            return
        if isinstance(it, (tuple, str, range, set, frozenset)):
            yield from it
            return
        if isinstance(it, PDict):
            for k, _ in list(it.items_):
                yield k
            return
        if isinstance(it, np.ndarray):
            if it.ndim == 0:
                raise PyRaise(TypeError("iteration over a 0-d array"))
            for i in range(it.shape[0]):
                yield self.np.item(it, i)
            return
        if isinstance(it, PyClass) and it.members is not None:
            yield from it.members.values()
            return
        if isinstance(it, Obj):
            f = it.cls.lookup("__iter__")
            if f is not None:
                yield from self.iterate(self.call(Bound(f, it), [], {}))
                return
            f = it.cls.lookup("__next__")
            if f is not None:
                while True:
                    try:
                        v = self.call(Bound(f, it), [], {})
                    except PyRaise as e:
                        if isinstance(e.exc, StopIteration):
                            return
                        raise
                    yield v
            raise PyRaise(TypeError("%s object is not iterable" % it.cls.name))
        if self.seqs.symbolic_iter(self, it) is not None:
            raise Unsupported("concrete iteration over a symbolic-length iterable")
        xs = self.seqs.concrete_iter(self, it)
        if xs is not None:
            yield from xs
            return
        if self.seqs.is_model(it):
            raise Unsupported("iteration over %r" % (it,))
        if hasattr(it, "__next__") and not is_num(it):
            yield from it
            return
        raise PyRaise(TypeError("%s is not iterable" % (self.type_of(it),)))

    def to_list(self, v):
        return list(self.iterate(v))

    # -- calls ------------------------------------------------------------------
    def call(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.func, Native):
                return f.func.fn(self, [f.self_] + args, kw)
            return self.call_func(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, args, kw)
        if isinstance(f, Noop):
            return NOOP
        if isinstance(f, Obj):
            g = f.cls.lookup("__call__")
            if g is not None:
                return self.call(Bound(g, f), args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        r = self.lib.call_type(self, f, args, kw)
        if r is not NotImplemented:
            return r
        if self.seqs.is_model(f) or isinstance(f, (Opaque,)):
            raise Unsupported("call of %r" % (f,))
        raise PyRaise(TypeError("%r is not callable" % (f,)))

    def instantiate(self, cls, args, kw):
        h = self.ver.contract("new:" + cls.mod.name + "." + cls.name)
        if h is not None:
            return h(self, cls, args, kw)
        if cls.members is not None:
            for m in cls.members.values():
                if self.truth(self.eq(m.attrs["value"], args[0])):
                    return m
            raise PyRaise(ValueError("not a valid member"))
        o = Obj(cls)
        new = cls.lookup("__new__")
        if isinstance(new, (Func, StaticM)):
            raise Unsupported("__new__")
        init = cls.lookup("__init__")
        if init is not None:
            self.call(Bound(init, o), args, kw)
        elif any(isinstance(c, type) and issubclass(c, BaseException) for c in cls.mro):
            o.attrs["args"] = tuple(args)
        elif args or kw:
            raise PyRaise(TypeError("%s() takes no arguments" % cls.name))
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        env = Env(f.mod, f.env)
        pos = [p.arg for p in a.posonlyargs + a.args]
        vals = {}
        kw = dict(kw)
        star = None
        for x in args:
            if isinstance(x, self.seqs.StarArgs):
                star = x
        if star is not None:
            if len(args) == 1 + len(pos) and a.vararg or (len(args) == 1 and a.vararg and not pos):
                vals = dict(zip(pos, args[:-1]))
                vals[a.vararg.arg] = star.seq
                args = []
                pos_left = []
            else:
                raise Unsupported("call with a symbolic number of arguments")
        else:
            if len(args) > len(pos):
                if a.vararg is None:
                    raise PyRaise(TypeError("too many positional arguments for %s" % f.qual))
            for p, v in zip(pos, args):
                vals[p] = v
            if a.vararg is not None:
                vals[a.vararg.arg] = tuple(args[len(pos):])
        for p in pos:
            if p in kw:
                if p in vals:
                    raise PyRaise(TypeError("multiple values for argument"))
                vals[p] = kw.pop(p)
        nd = len(f.defaults)
        for p, d in zip(pos[len(pos) - nd:], f.defaults):
            if p not in vals:
                vals[p] = d
        for p in pos:
            if p not in vals:
                raise PyRaise(TypeError("missing argument %s of %s" % (p, f.qual)))
        for p, dn, d in zip(a.kwonlyargs, a.kw_defaults, f.kwdefaults):
            if p.arg in kw:
                vals[p.arg] = kw.pop(p.arg)
            elif dn is not None:
                vals[p.arg] = d
            else:
                raise PyRaise(TypeError("missing keyword-only argument %s" % p.arg))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = PDict(kw.items())
        elif kw:
            raise PyRaise(TypeError("unexpected keyword argument %s of %s" % (sorted(kw)[0], f.qual)))
        env.vars.update(vals)
        env.func = f
        if pos and pos[0] in vals:
            env.self_ = vals[pos[0]]
        return env

    def call_func(self, f, args, kw):
        h = self.ver.contract(f.qual)
        if h is not None:
            return h(self, f, args, kw)
        env = self.bind_args(f, args, kw)
        self.depth += 1
        if self.depth > 60:
            self.depth = 0
            raise Unsupported("recursion too deep in %s" % f.qual)
        self.ver.functions.add(f.qual)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if f.isgen:
                self.yields.append([])
                try:
                    self.exec_block(f.node.body, env)
                except ReturnSig:
                    pass
                return iter(self.yields.pop())
            def body():
                # local variables are unbound until assigned
                try:
                    self.exec_block(f.node.body, env)
                except ReturnSig as r:
                    return r.v
                return None
            c = Ctx.cur
            if c is None or not c.pure:
                return body()
            first = dict(env.vars)

            def again():
                env.vars = dict(first)
                return body()
            return Split().run(c, again)
        finally:
            self.depth -= 1


class _Unbound:
    pass


UNBOUND = _Unbound()
