"""C04: normal ordering."""
import itertools
from conf.harness import sections
from conf import fermion as F
from HamiltonianPy.quantumoperator import AoC, ParticleTerm, StateID
from HamiltonianPy.quantumoperator.constant import CREATION, ANNIHILATION
try:
    from HamiltonianPy.quantumoperator.particlesystem import SwapFermionError
except ImportError:          # the error class itself is looked up by name
    SwapFermionError = None


def check(rep, string, mk, key):
    """string: [(state index, is_creation)], states ascending with the index."""
    ops = [mk[x] for x in string]
    given = list(ops)
    bad = any(not string[i][1] and any(string[j] == (string[i][0], True) for j in range(i + 1, len(string)))
              for i in range(len(string)))
    rep.case(tuple(string) if len(string) > 1 else None)
    try:
        out, count = ParticleTerm.normalize(ops)
    except Exception as e:
        if type(e).__name__ != "SwapFermionError":
            rep.fail(key + "/exception", "%s: %s" % (type(e).__name__, e), string=string)
        elif not bad:
            rep.fail(key + "/raise", "SwapFermionError without an annihilation left of its creation", string=string)
        rep.expect(len(ops) == len(given) and all(a is b for a, b in zip(ops, given)), key + "/frame", "input list modified", string=string)
        return
    rep.expect(len(ops) == len(given) and all(a is b for a, b in zip(ops, given)), key + "/frame", "input list modified", string=string)
    if bad:
        rep.fail(key + "/noraise", "SwapFermionError not raised", string=string)
        return
    back = {(a.otype, tuple(a.coordinate), a.spin, a.orbit): x for x, a in mk.items()}
    res = [back.get((a.otype, tuple(a.coordinate), a.spin, a.orbit)) for a in out]
    want = sorted([x for x in string if x[1]]) + sorted([x for x in string if not x[1]], reverse=True)
    rep.expect(res == want, key + "/order", "%r instead of %r" % (res, want), string=string)
    if res == want:
        # sign of the identity, checked on all kets of the involved states
        n = max([x[0] for x in string] + [0]) + 1
        if len(set(string)) == len(string):
            # no repeated operator: the sign is determined
            for ket in range(1 << n):
                r0, r1 = F.act(list(string), ket), F.act(res, ket)
                if (r0 is None) != (r1 is None):
                    rep.fail(key + "/identity", "actions differ", string=string, ket=ket)
                    return
                if r0 is not None:
                    ok = r0[0] == r1[0] and r0[1] == r1[1] * (-1) ** (count % 2)
                    rep.expect(ok, key + "/sign", "count %r" % count, string=string, ket=ket)
        rep.expect(isinstance(count, int) and count >= 0, key + "/count", count, string=string)


def ops_for(n, rng=None):
    states = []
    if rng is None:
        states = [((i,), 0, 0) for i in range(n)]
    else:
        seen = set()
        while len(seen) < n:
            seen.add(((rng.randint(-2, 2), rng.randint(-2, 2) / 4), rng.randint(0, 1), rng.randint(0, 1)))
        states = sorted(seen)
    mk = {}
    for i, s in enumerate(states):
        mk[(i, True)] = AoC(CREATION, site=s[0], spin=s[1], orbit=s[2])
        mk[(i, False)] = AoC(ANNIHILATION, site=s[0], spin=s[1], orbit=s[2])
    return mk


def small(rep):
    mk = ops_for(3)
    for L in (0, 1, 2, 3, 4):
        for s in itertools.product(sorted(mk), repeat=L):
            check(rep, list(s), mk, "small")


def longer(rep):
    rng = rep.rng
    for i in rep.rounds(1500):
        n = rng.randint(2, 6)
        mk = ops_for(n, rng)
        L = rng.randint(4, 9)
        if rng.random() < 0.6:
            # distinct operators, creations of a shared state before its annihilation
            pool = sorted(mk)
            s = rng.sample(pool, min(L, len(pool)))
            for _ in range(3):
                for a in range(len(s)):
                    for b in range(a + 1, len(s)):
                        if s[a][0] == s[b][0] and not s[a][1] and s[b][1] and rng.random() < 0.9:
                            s[a], s[b] = s[b], s[a]
        else:
            s = [rng.choice(sorted(mk)) for _ in range(L)]
        check(rep, s, mk, "long")
        if i % 3 == 0:
            ops = tuple(mk[x] for x in s)
            try:
                ParticleTerm.normalize(ops)
            except Exception as e:
                rep.expect(type(e).__name__ == "SwapFermionError", "tuple/exception", repr(e), string=s)


def very_long(rep):
    """Terms of up to 20 distinct operators; the sign is that of the permutation."""
    rng = rep.rng
    for i in rep.rounds(120):
        n = rng.randint(6, 14)
        mk = ops_for(n, rng)
        L = rng.randint(8, min(20, 2 * n))
        s = rng.sample(sorted(mk), L)
        if i % 3 == 0:
            s = [x for x in sorted(s) if not x[1]] + [x for x in sorted(s, reverse=i % 2 == 0) if x[1]]
            s = [x for x in s if x[1] or (x[0], True) not in s]
        at = {x: k for k, x in enumerate(s)}
        for x in list(at):
            y = (x[0], not x[1])
            if not x[1] and y in at and at[x] < at[y]:
                s[at[x]], s[at[y]] = y, x
                at[x], at[y] = at[y], at[x]
        want = sorted([x for x in s if x[1]]) + sorted([x for x in s if not x[1]], reverse=True)
        odd = sum(want.index(s[a]) > want.index(s[b]) for a in range(len(s)) for b in range(a + 1, len(s))) % 2
        rep.case(tuple(s))
        out, count = ParticleTerm.normalize([mk[x] for x in s])
        rep.expect(list(out) == [mk[x] for x in want], "verylong/order", "", string=s)
        rep.expect(count % 2 == odd, "verylong/sign", "count %r" % count, string=s)


def run(rep):
    sections(rep, small, longer, very_long)
