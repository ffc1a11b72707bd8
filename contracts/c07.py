"""C07: identity, hashing and ordering of sites, states and operators."""
from .base import *
from .c11 import configure, cell, FP

QS = "HamiltonianPy.quantumoperator.quantumstate"
PS = "HamiltonianPy.quantumoperator.particlesystem"
SS = "HamiltonianPy.quantumoperator.spinsystem"
OPS = ["==", "!=", "<", "<=", ">", ">="]


def lexlt(a, b):
    """a < b lexicographically (equal lengths)."""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = Or(lt(x, y), And(eqz(x, y), r))
    return r


def alleq(a, b):
    return And([eqz(x, y) for x, y in zip(a, b)] + [z3.BoolVal(True)])


def site(h, dim, n="x"):
    kind = h.choose([tuple, list, "array"], "kind") if n == "x" else tuple
    v = [h.real(n) for _ in range(dim)]
    return v, (np.array(v, dtype=object) if kind == "array" else kind(v))


def label(h, n):
    v = h.int(n)
    h.requires(v.e >= 0)
    return v


def order_spec(h, a, b, less, equal, what):
    """All six operators agree with one strict order and its equality."""
    want = {"==": equal, "!=": Not(equal), "<": less, "<=": Or(less, equal), ">": And(Not(less), Not(equal)), ">=": Not(less)}
    for op in OPS:
        h.ensure("%s: %s is the comparison of the ids" % (what, op), formula(h.rt.rich(op, a, b)) == want[op])


def hashes(h, a, b, equal, what):
    f = h.rt.builtins["hash"]
    h.ensure("%s: equal objects have equal hashes" % what, Implies(equal, h.eq(h.call(f, a), h.call(f, b))))


def tasks():
    out = []

    def T(name, fn, functions, mods=(QS,), **kw):
        out.append(Task(name, lambda rt, c: fn(H(rt, c)), functions, modules=list(mods), assumes=[FP, "hash() is a function of the hashed tuple"], **kw))

    def siteid(h):
        zoom = configure(h, QS)
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        C = h.get(QS, "SiteID")
        a, b = h.call(C, p), h.call(C, q)
        ca, cb = [cell(zoom, x) for x in v], [cell(zoom, x) for x in w]
        order_spec(h, a, b, lexlt(ca, cb), alleq(ca, cb), "SiteID")
        hashes(h, a, b, alleq(ca, cb), "SiteID")
        h.ensure("coordinate", h.value_eq(h.attr(a, "coordinate"), tuple(v)))
        s = h.attr(a, "site")
        h.ensure("site array", And(z3.BoolVal(isinstance(s, np.ndarray)), h.value_eq(s, np.array(v, dtype=object))))
    T("SiteID order, equality, hash", siteid, [QS + ".SiteID"], budget=200)

    def stateid(h):
        zoom = configure(h, QS)
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        s, o, s2, o2 = label(h, "s"), label(h, "o"), label(h, "s2"), label(h, "o2")
        C = h.get(QS, "StateID")
        a, b = h.call(C, p, s, o), h.call(C, q, spin=s2, orbit=o2)
        ca, cb = [cell(zoom, x) for x in v] + [s, o], [cell(zoom, x) for x in w] + [s2, o2]
        order_spec(h, a, b, lexlt(ca, cb), alleq(ca, cb), "StateID")
        hashes(h, a, b, alleq(ca, cb), "StateID")
        h.ensure("spin and orbit", And(h.eq(h.attr(a, "spin"), s), h.eq(h.attr(a, "orbit"), o)))
        h.ensure("coordinate", h.value_eq(h.attr(a, "coordinate"), tuple(v)))
        d = h.call(C, p)
        h.ensure("default spin and orbit are 0", And(h.eq(h.attr(d, "spin"), 0), h.eq(h.attr(d, "orbit"), 0)))
    T("StateID order, equality, hash", stateid, [QS + ".StateID"], budget=200)

    def aoc(h):
        zoom = configure(h, QS)
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        s, o, s2, o2 = label(h, "s"), label(h, "o"), label(h, "s2"), label(h, "o2")
        CR, AN = h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        t, t2 = h.choose([(CR, CR), (CR, AN), (AN, CR), (AN, AN)], "types")
        C = h.get(PS, "AoC")
        a, b = h.call(C, t, p, s, o), h.call(C, t2, site=q, spin=s2, orbit=o2)
        ca, cb = [cell(zoom, x) for x in v] + [s, o], [cell(zoom, x) for x in w] + [s2, o2]
        same = alleq(ca, cb)
        equal = same if t == t2 else z3.BoolVal(False)
        if t != t2:
            less = z3.BoolVal(t == CR)
        elif t == CR:
            less = lexlt(ca, cb)
        else:
            less = lexlt(cb, ca)
        order_spec(h, a, b, less, equal, "AoC")
        hashes(h, a, b, equal, "AoC")
        h.ensure("conjugate_of: same state, other type", formula(h.meth(a, "conjugate_of", b)) == (same if t != t2 else z3.BoolVal(False)))
        h.ensure("same_state", formula(h.meth(a, "same_state", b)) == same)
        d = h.meth(a, "dagger")
        h.ensure("dagger: other type, same state", And(z3.BoolVal(h.attr(d, "otype") == (AN if t == CR else CR)), h.eq(h.attr(d, "spin"), s),
                 h.eq(h.attr(d, "orbit"), o), h.value_eq(h.attr(d, "coordinate"), tuple(v))))
        h.ensure("a is unchanged", And(z3.BoolVal(h.attr(a, "otype") == t), h.eq(h.attr(a, "spin"), s), h.eq(h.attr(a, "orbit"), o),
                 h.value_eq(h.attr(a, "coordinate"), tuple(v))))
        h.ensure("state of the operator", h.eq(h.attr(a, "state"), h.call(h.get(QS, "StateID"), p, s, o)))
    T("AoC order, equality, hash, conjugation", aoc, [PS + ".AoC"], (QS, PS), budget=240, max_paths=3000)

    def numb(h):
        zoom = configure(h, QS)
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        s, o, s2, o2 = label(h, "s"), label(h, "o"), label(h, "s2"), label(h, "o2")
        C = h.get(PS, "NumberOperator")
        a, b = h.call(C, p, s, o), h.call(C, q, spin=s2, orbit=o2)
        ca, cb = [cell(zoom, x) for x in v] + [s, o], [cell(zoom, x) for x in w] + [s2, o2]
        order_spec(h, a, b, lexlt(ca, cb), alleq(ca, cb), "NumberOperator")
        hashes(h, a, b, alleq(ca, cb), "NumberOperator")
    T("NumberOperator order, equality, hash", numb, [PS + ".NumberOperator"], (QS, PS), budget=200)

    def derive(h):
        cls = h.choose(["AoC", "NumberOperator", "SpinOperator"], "cls")
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        s, o = label(h, "s"), label(h, "o")
        CR, AN = h.get(PS, "CREATION"), h.get(PS, "ANNIHILATION")
        C = h.get(SS if cls == "SpinOperator" else PS, cls)
        attrs = {"AoC": ["otype", "site", "spin", "orbit"], "NumberOperator": ["site", "spin", "orbit"], "SpinOperator": ["otype", "site"]}[cls]
        old = {"site": tuple(v), "spin": s, "orbit": o, "otype": CR if cls == "AoC" else "p"}
        w, q = site(h, dim, "y")
        new = {"site": q, "spin": label(h, "s2"), "orbit": label(h, "o2"), "otype": AN if cls == "AoC" else "z"}
        a = h.call(C, **{k: old[k] for k in attrs})
        kw = {}
        for k in attrs:
            if h.choose([False, True], k):
                kw[k] = new[k]
        d = h.meth(a, "derive", **kw)
        for k in attrs:
            x = kw.get(k, old[k])
            h.ensure("derive: attribute %s" % k, h.value_eq(h.attr(d, "coordinate" if k == "site" else k), tuple(x) if k == "site" else x))
            h.ensure("derive leaves the operator alone: %s" % k, h.value_eq(h.attr(a, "coordinate" if k == "site" else k), old[k]))
    T("derive changes only the requested attributes", derive, [PS + ".AoC.derive", PS + ".NumberOperator.derive", SS + ".SpinOperator.derive"], (QS, PS, SS), budget=200, max_paths=1000)

    OT = ("x", "y", "z", "p", "m")

    def spin(h):
        zoom = configure(h, QS)
        dim = h.choose([1, 2, 3], "dim")
        v, p = site(h, dim)
        w, q = site(h, dim, "y")
        t, t2 = h.choose(OT, "t"), h.choose(OT, "t")
        C = h.get(SS, "SpinOperator")
        a, b = h.call(C, t, p), h.call(C, otype=t2, site=q)
        same = alleq([cell(zoom, x) for x in v], [cell(zoom, x) for x in w])
        equal = same if t == t2 else z3.BoolVal(False)
        less = formula(h.rt.rich("<", a, b))
        order_spec(h, a, b, less, equal, "SpinOperator")
        h.ensure("SpinOperator: < is irreflexive on equal operators", Implies(equal, Not(less)))
        h.ensure("SpinOperator: > is the converse of <", formula(h.rt.rich(">", b, a)) == less)
        hashes(h, a, b, equal, "SpinOperator")
        h.ensure("same_site", formula(h.meth(a, "same_site", b)) == same)
        conj = {"p": "m", "m": "p"}
        h.ensure("conjugate_of", formula(h.meth(a, "conjugate_of", b)) == (same if conj.get(t, t) == t2 else z3.BoolVal(False)))
    T("SpinOperator order, equality, hash, conjugation", spin, [SS + ".SpinOperator"], (QS, PS, SS), budget=300, max_paths=3000)

    def spin_trans(h):
        dim = h.choose([1, 2], "dim")
        C = h.get(SS, "SpinOperator")
        ts = [h.choose(OT, "t") for _ in range(3)]
        a, b, d = [h.call(C, t, tuple(h.real("x%d" % i) for i in range(dim))) for t in ts]
        L = lambda x, y: formula(h.rt.rich("<", x, y))
        h.ensure("SpinOperator: < is transitive", Implies(And(L(a, b), L(b, d)), L(a, d)))
    T("SpinOperator: transitivity", spin_trans, [SS + ".SpinOperator.__lt__"], (QS, PS, SS), budget=200, max_paths=1000)

    def mixed(h):
        what = h.choose(["SiteID", "StateID", "AoC", "NumberOperator", "SpinOperator"], "cls")
        dims = h.choose([(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)], "dims")
        def mk(d, i):
            p = tuple(h.real("x%d" % i) for _ in range(d))
            if what == "SiteID":
                return h.call(h.get(QS, what), p)
            if what == "SpinOperator":
                return h.call(h.get(SS, what), "z", p)
            kw = dict(site=p, spin=label(h, "s%d" % i), orbit=label(h, "o%d" % i))
            if what == "AoC":
                kw["otype"] = h.get(PS, "ANNIHILATION")
            return h.call(h.get(QS if what == "StateID" else PS, what), **kw)
        a, b = mk(dims[0], 0), mk(dims[1], 1)
        less = formula(h.rt.rich("<", a, b))
        order_spec(h, a, b, less, z3.BoolVal(False), what + " of different dimensions")
        h.ensure("converse", formula(h.rt.rich(">", b, a)) == less)
    T("ids of different dimensions are unequal and ordered", mixed, [QS + ".SiteID", PS + ".AoC"], (QS, PS, SS), budget=200, max_paths=1000)

    def typed(h):
        p = (h.real("x"),)
        a = h.call(h.get(PS, "AoC"), h.get(PS, "CREATION"), p)
        s = h.call(h.get(SS, "SpinOperator"), "x", p)
        for o, ms in ((a, ("conjugate_of", "same_state")), (s, ("conjugate_of", "same_site"))):
            for m in ms:
                h.ensure_raises("%s of a foreign object raises TypeError" % m, h.outcome(lambda: h.meth(o, m, 3)), "TypeError")
        h.ensure("operators are not numbers", And(Not(formula(h.rt.eq(a, 3))), Not(formula(h.rt.eq(s, 3)))))
    T("foreign operands", typed, [PS + ".AoC.conjugate_of", SS + ".SpinOperator.same_site"], (QS, PS, SS))
    return out
