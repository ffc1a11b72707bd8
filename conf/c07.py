"""C07: identity, hashing, ordering."""
import itertools
import functools
import numpy as np
from conf.harness import sections
from HamiltonianPy.quantumoperator import SiteID, StateID, AoC, NumberOperator, SpinOperator
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION, SPIN_OTYPES
import HamiltonianPy.quantumoperator.quantumstate as qs


def coord(rng, unit):
    """(grid integer, a float inside that cell); grid cells near 0 are avoided on the negative side."""
    g = rng.choice([0, 1, 2, 3, 7, 10000, 5000, 3333, -1, -2, -3, -10000, -5000])
    if g == 0:
        off = rng.choice([0.0, 0.3, 0.7])
    else:
        off = rng.choice([0.2, 0.5, 0.8])
        if g < 0:
            off = -off
        if g in (1, 2, 3, -1, -2, -3, 5000, 10000) and rng.random() < 0.2 and unit == 1e-4:
            off = 0.5 if g > 0 else -0.5
    return g, (g + off) * unit


def gen(rng, dim, unit):
    cs = [coord(rng, unit) for _ in range(dim)]
    return tuple(c[0] for c in cs), tuple(c[1] for c in cs)


def cell_int(rng, dim):
    cs = tuple(rng.randint(-2, 2) for _ in range(dim))
    return tuple(10000 * c for c in cs), cs


def make(rng, cls, dim, unit=1e-4):
    g, c = gen(rng, dim, unit) if unit != 1e-4 or rng.random() < 0.75 else cell_int(rng, dim)
    c = rng.choice([tuple, list, np.array])(c)
    if cls is SiteID:
        return SiteID(c), (g,)
    if cls is SpinOperator:
        o = rng.choice(SPIN_OTYPES)
        return SpinOperator(o, c), (o, g)
    sp, ob = rng.randint(0, 2), rng.randint(0, 2)
    if rng.random() < 0.2:
        sp, ob = rng.choice([0, 1, 255, 256, 300, 1000]), rng.choice([0, 1, 63, 64, 256, 1024])
    if cls is StateID:
        return StateID(c, spin=sp, orbit=ob), (g, sp, ob)
    if cls is NumberOperator:
        return NumberOperator(c, spin=sp, orbit=ob), (g, sp, ob)
    o = rng.choice([CREATION, ANNIHILATION])
    return AoC(o, c, spin=sp, orbit=ob), (o, (g, sp, ob))


def less(cls, a, b):
    if cls is AoC:
        if a[0] != b[0]:
            return a[0] == CREATION
        return a[1] < b[1] if a[0] == CREATION else b[1] < a[1]
    return a < b


def orders(rep, dims=(1, 2, 3), unit=1e-4, n=60, tag=""):
    rng = rep.rng
    for cls in (SiteID, StateID, AoC, NumberOperator, SpinOperator):
        for dim in dims:
            for i in rep.rounds(n):
                objs = [make(rng, cls, dim, unit) for _ in range(4)]
                # a near copy, to hit equality and last-component differences
                x, kx = objs[0]
                if cls is StateID:
                    sp, ob = x.spin, x.orbit
                    objs.append((StateID(x.coordinate, spin=sp, orbit=ob + 1), (kx[0], sp, ob + 1)))
                    objs.append((StateID(x.coordinate, spin=sp + 1, orbit=ob), (kx[0], sp + 1, ob)))
                    objs.append((StateID(list(x.coordinate), spin=sp, orbit=ob), kx))
                elif cls is AoC:
                    s = kx[1]
                    objs.append((AoC(1 - kx[0], x.coordinate, spin=x.spin, orbit=x.orbit), (1 - kx[0], s)))
                    objs.append((AoC(kx[0], x.coordinate, spin=x.spin, orbit=x.orbit + 1), (kx[0], (s[0], s[1], s[2] + 1))))
                    objs.append((AoC(kx[0], list(x.coordinate), spin=x.spin, orbit=x.orbit), kx))
                elif cls is SpinOperator:
                    objs.append((SpinOperator(kx[0], x.coordinate), kx))
                    o = rng.choice(SPIN_OTYPES)
                    objs.append((SpinOperator(o, x.coordinate), (o, kx[1])))
                elif cls is NumberOperator:
                    objs.append((NumberOperator(x.coordinate, spin=x.spin, orbit=x.orbit), kx))
                else:
                    objs.append((SiteID(x.coordinate), kx))
                # cells whose integers hash alike: nothing but equality may tell equal from different
                for g in ((-1,) * dim, (-1,) * (dim - 1) + (-2,)):
                    c = tuple(q * 1.5 * unit if q == -1 else q * 1.25 * unit for q in g)
                    objs.append({SiteID: lambda: (SiteID(c), (g,)), StateID: lambda: (StateID(c), (g, 0, 0)),
                                 NumberOperator: lambda: (NumberOperator(c), (g, 0, 0)), AoC: lambda: (AoC(CREATION, c), (CREATION, (g, 0, 0))),
                                 SpinOperator: lambda: (SpinOperator("p", c), ("p", g))}[cls]())
                for (a, ka), (b, kb) in itertools.product(objs, repeat=2):
                    eq, lt, gt = ka == kb, less(cls, ka, kb), less(cls, kb, ka)
                    rep.case((cls.__name__, ka, kb))
                    inp = dict(a=a, b=b, tag=tag)
                    nm = cls.__name__ + tag
                    rep.expect((a == b) is eq, nm + "/eq", a == b, **inp)
                    rep.expect((a != b) is (not eq), nm + "/ne", a != b, **inp)
                    if cls is SpinOperator:
                        # the operator type's place in the order is not fixed, coherence is
                        rep.expect(((a < b) + (a > b) + (a == b)) == 1, nm + "/trichotomy", "", **inp)
                    else:
                        rep.expect((a < b) is lt, nm + "/lt", a < b, **inp)
                        rep.expect((a > b) is gt, nm + "/gt", a > b, **inp)
                    rep.expect((a <= b) is ((a < b) or eq), nm + "/le", a <= b, **inp)
                    rep.expect((a >= b) is ((a > b) or eq), nm + "/ge", a >= b, **inp)
                    rep.expect((a < b) is (b > a), nm + "/mirror", "", **inp)
                    if eq:
                        rep.expect(hash(a) == hash(b), nm + "/hash", "equal objects with different hashes", **inp)
                        rep.expect(len({a, b}) == 1, nm + "/set", "", **inp)
                    if cls in (AoC, NumberOperator):
                        rep.expect((a.state == b.state) is ((ka[1] == kb[1]) if cls is AoC else eq), nm + "/state", "", **inp)
                for (a, ka), (b, kb), (c, kc) in itertools.islice(itertools.permutations(objs, 3), 30):
                    if a <= b and b <= c:
                        rep.expect(a <= c, cls.__name__ + "/transitive", "", a=a, b=b, c=c)
                srt = sorted([o[0] for o in objs])
                rep.expect(all(p <= q for p, q in zip(srt, srt[1:])), cls.__name__ + "/sorted", "")


def relations(rep):
    rng = rep.rng
    for i in rep.rounds(300):
        dim = rng.randint(1, 3)
        objs = [make(rng, AoC, dim) for _ in range(3)]
        a, ka = objs[0]
        objs.append((a.dagger(), (1 - ka[0], ka[1])))
        objs.append((AoC(ka[0], a.coordinate, spin=a.spin, orbit=a.orbit), ka))
        for (x, kx), (y, ky) in itertools.product(objs, repeat=2):
            rep.case(("aoc", kx, ky))
            rep.expect(x.conjugate_of(y) is (kx[0] != ky[0] and kx[1] == ky[1]), "AoC/conjugate_of", "", x=x, y=y)
            rep.expect(x.same_state(y) is (kx[1] == ky[1]), "AoC/same_state", "", x=x, y=y)
        rep.raises(TypeError, lambda: a.conjugate_of(3), "AoC/conjugate_of/type", "")
        rep.raises(TypeError, lambda: a.same_state(a.state), "AoC/same_state/type", "")
        sp = [make(rng, SpinOperator, dim) for _ in range(3)]
        s, ks = sp[0]
        sp.append((s.dagger(), ({"p": "m", "m": "p"}.get(ks[0], ks[0]), ks[1])))
        for (x, kx), (y, ky) in itertools.product(sp, repeat=2):
            rep.case(("spin", kx, ky))
            w = {"p": "m", "m": "p"}.get(kx[0], kx[0]) == ky[0] and kx[1] == ky[1]
            rep.expect(x.conjugate_of(y) is w, "Spin/conjugate_of", "", x=x, y=y)
            rep.expect(x.same_site(y) is (kx[1] == ky[1]), "Spin/same_site", "", x=x, y=y)
        rep.raises(TypeError, lambda: s.conjugate_of(3), "Spin/conjugate_of/type", "")
        rep.raises(TypeError, lambda: s.same_site("x"), "Spin/same_site/type", "")


def derive(rep):
    rng = rep.rng
    for i in rep.rounds(300):
        dim = rng.randint(1, 3)
        a, ka = make(rng, AoC, dim)
        base = dict(otype=a.otype, site=a.coordinate, spin=a.spin, orbit=a.orbit)
        new = dict(otype=rng.choice([CREATION, ANNIHILATION]), site=tuple(rng.randint(-2, 2) for _ in range(rng.randint(1, 3))),
                   spin=rng.randint(0, 3), orbit=rng.randint(0, 3))
        for r in range(5):
            for keys in itertools.combinations(sorted(new), r):
                ch = {k: new[k] for k in keys}
                d = a.derive(**ch)
                want = dict(base, **ch)
                rep.case(("aoc", ka, keys))
                rep.expect((d.otype, tuple(d.coordinate), d.spin, d.orbit) == (want["otype"], tuple(want["site"]), want["spin"], want["orbit"]),
                           "AoC/derive", d, a=a, ch=ch)
                rep.expect((a.otype, a.coordinate, a.spin, a.orbit) == (base["otype"], base["site"], base["spin"], base["orbit"]), "AoC/derive/frame", a)
        n, kn = make(rng, NumberOperator, dim)
        for r in range(4):
            for keys in itertools.combinations(["site", "spin", "orbit"], r):
                ch = {k: new[k] for k in keys}
                d = n.derive(**ch)
                want = dict(dict(site=n.coordinate, spin=n.spin, orbit=n.orbit), **ch)
                rep.expect((tuple(d.coordinate), d.spin, d.orbit) == (tuple(want["site"]), want["spin"], want["orbit"]), "Number/derive", d, n=n, ch=ch)
        s, ks = make(rng, SpinOperator, dim)
        for ot in (None,) + tuple(SPIN_OTYPES):
            for st in (None, new["site"]):
                d = s.derive(otype=ot, site=st)
                rep.expect(d.otype == (ot or s.otype) and tuple(d.coordinate) == tuple(st if st is not None else s.coordinate), "Spin/derive", d, s=s)
    # accessors
    for i in rep.rounds(200):
        dim = rng.randint(1, 3)
        c = tuple(rng.choice([rng.randint(-5, 5), rng.uniform(-3, 3)]) for _ in range(dim))
        for o in (SiteID(c), StateID(c, spin=3, orbit=2), AoC(CREATION, c, spin=3, orbit=2), NumberOperator(c, spin=3, orbit=2), SpinOperator("x", c)):
            rep.case((type(o).__name__, c))
            rep.expect(tuple(o.coordinate) == c and np.array_equal(o.site, np.array(c)), "accessor/site", o, c=c)
            if not isinstance(o, (SpinOperator,)) and type(o) is not SiteID:
                rep.expect(o.spin == 3 and o.orbit == 2, "accessor/spin", o)
        for bad in (dict(site=c, spin=-1), dict(site=c, orbit=-1), dict(site=c, spin=0.5), dict(site=(), spin=0), dict(site=(0,) * 4), dict(site=("a",))):
            rep.raises((AssertionError, ValueError, TypeError), lambda: StateID(**bad), "reject/state", bad)
    for cls, args in ((AoC, (2, (0,))), (AoC, ("x", (0,))), (SpinOperator, ("q", (0,)))):
        rep.raises((AssertionError, ValueError), lambda: cls(*args), "reject/otype", args)
    # StateID is not a SiteID with another answer, foreign types never equal
    x = StateID((0, 0))
    rep.expect(not (x == 3) and x != 3 and not (AoC(1, (0,)) == 3) and not (SpinOperator("x", (0,)) == None), "foreign", "")
    for a, b in ((SiteID((0,)), 3), (AoC(1, (0,)), 3), (NumberOperator((0,)), "n"), (SpinOperator("x", (0,)), ())):
        for op in ("__lt__", "__gt__", "__le__", "__ge__"):
            rep.raises(TypeError, lambda: {"__lt__": lambda: a < b, "__gt__": lambda: a > b, "__le__": lambda: a <= b, "__ge__": lambda: a >= b}[op](), "foreign/order", op)


def precision(rep):
    """Other configured precisions."""
    try:
        for p in (2, 0, 6, 1, 3, 9):
            qs.set_float_point_precision(p)
            orders(rep, dims=(1, 2), unit=10.0 ** (-p), n=12, tag="/precision%d" % p)
    finally:
        qs.set_float_point_precision(4)


def run(rep):
    sections(rep, relations, derive, orders, precision)
