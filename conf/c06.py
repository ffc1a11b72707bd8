"""C06: IndexTable."""
from conf.harness import sections
from HamiltonianPy.indextable import IndexTable
from HamiltonianPy.quantumoperator import SiteID, StateID, AoC, NumberOperator, SpinOperator


def pools(rng):
    n = rng.randint(1, 12)
    kind = rng.choice(["str", "tuple", "int", "site", "state", "aoc", "spin", "float"])
    xs = rng.sample(range(-20, 40), n)
    mk = {"str": lambda x: "k%d" % x, "tuple": lambda x: (x, -x), "int": lambda x: x, "site": lambda x: SiteID((x, 0.5)),
          "state": lambda x: StateID((x,), spin=abs(x) % 2), "aoc": lambda x: AoC(abs(x) % 2, (x,)),
          "spin": lambda x: SpinOperator("z", (x,)), "float": lambda x: x + 0.5}[kind]
    return kind, [mk(x) for x in xs], mk


def main_(rep):
    rng = rep.rng
    for i in rep.rounds(1200):
        kind, objs, mk = pools(rng)
        start = rng.choice([0, 0, 1, -3, 7, 100])
        arg = rng.choice([list, tuple, iter])(objs)
        src = objs if not isinstance(arg, list) else arg
        t = IndexTable(arg, start=start) if start or rng.random() < 0.5 else IndexTable(arg)
        n = len(objs)
        want = [(start + j, o) for j, o in enumerate(objs)]
        rep.case((kind, start, n, i % 50))

        def full(tag):
            rep.expect(len(t) == n, "len/" + tag, len(t), kind=kind)
            rep.expect(list(t) == want, "iter/" + tag, list(t), want=want)
            rep.expect(list(t.indices()) == [w[0] for w in want], "indices/" + tag, list(t.indices()), want=want)
            rep.expect(list(t.objects()) == [w[1] for w in want], "objects/" + tag, list(t.objects()), want=want)
            for k, o in want:
                rep.expect(t.query_index(o) == k and t(o) == k and type(t(o)) is int, "query_index/" + tag, t(o), want=k)
                rep.expect(t.query_object(k) is o or t.query_object(k) == o, "query_object/" + tag, t.query_object(k), want=o)
            rep.expect(t.object_type is type(objs[0]), "type/" + tag, t.object_type)
        full("fresh")
        # misses must not change the table
        if kind != "int":
            rep.raises(TypeError, lambda: t(1), "type/query", "query of the wrong type")
        else:
            rep.raises(TypeError, lambda: t("zz"), "type/query", "query of the wrong type")
        rep.raises(TypeError, lambda: t.query_index(None), "type/query", "query of the wrong type")
        rep.raises(TypeError, lambda: t.query_object("0"), "type/object", "non-integer index")
        rep.raises(TypeError, lambda: t.query_object(1.0), "type/object", "non-integer index")
        rep.raises(KeyError, lambda: t.query_object(start + n), "key/object", "index past the end")
        rep.raises(KeyError, lambda: t.query_object(start - 1), "key/object", "index before the start")
        rep.raises(KeyError, lambda: t.query_object(-1 if start > 0 else start - 1), "key/object", "negative index")
        if kind not in ("int",):
            rep.raises(KeyError, lambda: t(mk(77)), "key/index", "unknown object")
        else:
            rep.raises(KeyError, lambda: t(77), "key/index", "unknown object")
        # returned views cannot change it
        for view in (t.indices(), t.objects(), iter(t)):
            for name in ("clear", "pop", "append", "add", "remove"):
                f = getattr(view, name, None)
                if f is not None:
                    try:
                        f()
                    except Exception:
                        pass
            try:
                del view[0]
            except Exception:
                pass
        d = dict(t)
        d.clear()
        if isinstance(arg, list):
            arg.append(mk(33))
            arg.reverse()
        full("after")
        # duplicates
        dup = list(objs)
        dup.insert(rng.randint(0, n), mk(0) if False else rng.choice(objs))
        rep.raises(ValueError, lambda: IndexTable(dup, start=start), "duplicate", "duplicate accepted", kind=kind, n=n)
        other = rng.choice([o for o in ((1, 2, 3, 4), "other", None, True, 2.25, 1j, SiteID((0, 9)), StateID((9,)), b"k1",
                                        frozenset({1}), NumberOperator((9,))) if not isinstance(o, type(objs[0])) and not issubclass(type(objs[0]), type(o))])
        mixed = list(objs)
        mixed.insert(rng.randint(0, n), other)
        rep.raises(TypeError, lambda: IndexTable(mixed, start=start), "mixed", "mixed types accepted", kind=kind, n=n)
    # equal (not identical) duplicates, far apart
    for n in (2, 3, 30):
        objs = [SiteID((k,)) for k in range(n)] + [SiteID((0.00001,))]
        rep.raises(ValueError, lambda: IndexTable(objs), "duplicate/equal", "equal objects accepted", n=n)
    t = IndexTable("abcdef", start=5)
    it = iter(t)
    first = next(it)
    rep.expect(list(t) == [(5 + i, c) for i, c in enumerate("abcdef")] and first == (5, "a") and len(list(it)) == 5, "iter/independent", "")


def run(rep):
    sections(rep, main_)
