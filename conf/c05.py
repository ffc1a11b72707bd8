"""C05: Hilbert-space bases."""
import itertools
import numpy as np
from conf.harness import sections
import HamiltonianPy.hilbertspace as HM
from HamiltonianPy.hilbertspace import SimpleHilbertSpace, HilbertSpace, base_vectors


def masks(states, number):
    """Bit patterns on the given states with the given particle number (any if negative)."""
    out = []
    states = sorted(states)
    k = len(states)
    for m in range(1 << k):
        if number < 0 or bin(m).count("1") == number:
            v = 0
            for i in range(k):
                if m >> i & 1:
                    v |= 1 << states[i]
            out.append(v)
    return out


def expected(subs):
    acc = [0]
    for st, n in subs:
        acc = [a | b for a in acc for b in masks(st, n)]
    return sorted(acc)


def verify(rep, fn, want, key, **inp):
    snap = repr(inp)
    for cont in ("array", "list", "tuple"):
        for sort in (True, False):
            got = fn(cont, sort)
            typ = {"array": np.ndarray, "list": list, "tuple": tuple}[cont]
            if not rep.expect(isinstance(got, typ), key + "/container", type(got), container=cont, **inp):
                continue
            if cont == "array":
                rep.expect(got.dtype == np.uint64 and got.ndim == 1, key + "/dtype", "%s %s" % (got.dtype, got.shape), **inp)
            vals = [int(x) for x in got]
            rep.case((key, tuple(want[:6]), len(want), cont) if len(want) > 1 else None)
            if sort:
                rep.expect(vals == want, key + "/sorted", "got %r" % (vals[:12],), container=cont, want=want[:12], **inp)
            else:
                rep.expect(sorted(vals) == want, key + "/set", "got %r" % (vals[:12],), container=cont, want=want[:12], **inp)
    a = fn("list", True)
    if a:
        a[0] = -5
        a.append(3)
    rep.expect([int(x) for x in fn("list", True)] == want, key + "/repeat", "second call differs", **inp)
    a = fn("array", True)
    a[:] = 0
    rep.expect([int(x) for x in fn("array", True)] == want, key + "/repeat/array", "second call differs", **inp)


def rand_subs(rng, maxtotal=9):
    pool = list(range(64)) if rng.random() < 0.6 else list(range(12))
    rng.shuffle(pool)
    subs = []
    total = 0
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(1, 4)
        if total + k > maxtotal:
            break
        st = [pool.pop() for _ in range(k)]
        total += k
        if rng.random() < 0.3:
            st.sort()
        n = rng.choice([-1, -1, -3] + list(range(k + 1)))
        subs.append((st, n))
    return subs


def container(rng, st):
    return rng.choice([list, tuple, set])(st)


def simple(rep):
    rng = rep.rng
    for n in range(1, 8):
        for p in range(-2, n + 1):
            want = expected([(range(n), p)])
            verify(rep, lambda c, s: SimpleHilbertSpace(n, p).base_vectors(container=c, sort=s), want, "Simple/int", n=n, p=p)
            verify(rep, lambda c, s: SimpleHilbertSpace(n, p)(container=c, sort=s), want, "Simple/call", n=n, p=p)
    for i in rep.rounds(300):
        (st, p) = rand_subs(rng)[0]
        cst = container(rng, st)
        h = SimpleHilbertSpace(cst, p)
        want = expected([(st, p)])
        verify(rep, lambda c, s: h.base_vectors(container=c, sort=s), want, "Simple", states=cst, p=p)
        rep.expect(h.state_number == len(st) and h.particle_number == p and sorted(h.single_particle_states) == sorted(st),
                   "Simple/props", repr(h), states=cst, p=p)
        if isinstance(cst, list):
            cst.append(99)
            cst[0] = 98
            verify(rep, lambda c, s: h.base_vectors(container=c, sort=s), want, "Simple/alias", states=st, p=p)
    h = SimpleHilbertSpace(3)
    verify(rep, lambda c, s: h.base_vectors(container=c, sort=s), list(range(8)), "Simple/default")
    rep.expect([int(x) for x in h.base_vectors()] == list(range(8)) and isinstance(h.base_vectors(), np.ndarray), "Simple/defaults", "")


def multi(rep):
    rng = rep.rng
    for i in rep.rounds(400):
        subs = rand_subs(rng)
        spec = []
        for st, n in subs:
            c = container(rng, st)
            spec.append(rng.choice([list, tuple])([c, n]))
        want = expected(subs)
        h = HilbertSpace(*spec)
        verify(rep, lambda c, s: h.base_vectors(container=c, sort=s), want, "Hilbert", subs=subs)
        verify(rep, lambda c, s: base_vectors(*spec, container=c, sort=s), want, "base_vectors", subs=subs)
        if i % 3 == 0:
            verify(rep, lambda c, s: h(container=c, sort=s), want, "Hilbert/call", subs=subs)
            rep.expect(h.subspace_number == len(subs), "Hilbert/number", h.subspace_number, subs=subs)
    for n in range(1, 6):
        verify(rep, lambda c, s: base_vectors(n, container=c, sort=s), list(range(1 << n)), "base_vectors/int", n=n)
        for p in range(-1, n + 1):
            want = expected([(range(n), p)])
            verify(rep, lambda c, s: base_vectors([n, p], container=c, sort=s), want, "base_vectors/intpair", n=n, p=p)
            verify(rep, lambda c, s: HilbertSpace((n, p)).base_vectors(container=c, sort=s), want, "Hilbert/intpair", n=n, p=p)
            up = list(range(n, 2 * n))
            want = expected([(range(n), p), (up, n - max(p, 0))])
            verify(rep, lambda c, s: HilbertSpace((n, p), (up, n - max(p, 0))).base_vectors(container=c, sort=s), want, "Hilbert/two", n=n, p=p)
    # large index spread: no value may lose bits
    for st in ([0, 63], [62, 63], [53, 54, 0], [31, 32, 33]):
        want = expected([(st, -1)])
        verify(rep, lambda c, s: base_vectors([st, -1], container=c, sort=s), want, "wide", st=st)
        verify(rep, lambda c, s: SimpleHilbertSpace(st).base_vectors(container=c, sort=s), want, "wide/simple", st=st)
    n = 14
    want = expected([(range(n), 7)])
    rep.expect([int(x) for x in base_vectors([n, 7])] == want, "large", "")
    rep.expect([int(x) for x in SimpleHilbertSpace(n, 7).base_vectors()] == want, "large/simple", "")


def rejects(rep):
    rng = rep.rng
    bad = [0, -1, -5, [], (), set(), [-1, 0], (0, 1.5), ["a"], "ab", 1.5, None, [0, None]]
    for b in bad:
        rep.case(("bad", repr(b)))
        rep.raises(ValueError, lambda: SimpleHilbertSpace(b), "reject/simple", "invalid states %r accepted" % (b,))
        rep.raises(ValueError, lambda: HilbertSpace([b, 0]), "reject/hilbert", "invalid states %r accepted" % (b,))
        rep.raises(ValueError, lambda: base_vectors([b, 0]), "reject/base_vectors", "invalid states %r accepted" % (b,))
        rep.raises(ValueError, lambda: base_vectors([b, -1]), "reject/base_vectors", "invalid states %r accepted" % (b,))
    for b in (0, -3, 1.5, "x", None, [1, 2, 3], (1,), []):
        rep.raises(ValueError, lambda: HilbertSpace(b), "reject/spec", "invalid specifier %r accepted" % (b,))
        rep.raises(ValueError, lambda: base_vectors(b), "reject/spec", "invalid specifier %r accepted" % (b,))
    checks = [getattr(HM, n) for n in ("is_valid_subspace_specifier",) if hasattr(HM, n)]
    for i in rep.rounds(300):
        k = rng.randint(1, 5)
        st = rng.sample(range(20), k)
        c = container(rng, st)
        over = k + rng.randint(1, 3)
        rep.case((tuple(st), over))
        rep.raises(ValueError, lambda: SimpleHilbertSpace(c, over), "reject/over/simple", "too many particles", st=st, over=over)
        rep.raises(ValueError, lambda: SimpleHilbertSpace(k, over), "reject/over/simple", "too many particles", st=k, over=over)
        rep.raises(ValueError, lambda: HilbertSpace((c, over)), "reject/over/hilbert", "too many particles", st=st, over=over)
        rep.raises(ValueError, lambda: base_vectors((k, over)), "reject/over/bv", "too many particles", st=k, over=over)
        for fn in checks:
            rep.expect(fn((c, over)) is False and fn((k, over)) is False and fn([c, k]) is True and fn((c, rng.randint(0, k))) is True
                       and fn((k, -1)) is True and fn(k) is True, "specifier/valid", "", st=st, over=over)
        # overlap between any two subspaces
        subs = rand_subs(rng)
        if len(subs) >= 2:
            a, b = rng.sample(range(len(subs)), 2)
            sp = [[list(s), n] for s, n in subs]
            sp[b][0].insert(rng.randint(0, len(sp[b][0])), rng.choice(sp[a][0]))
            rep.raises(ValueError, lambda: HilbertSpace(*sp), "reject/overlap", "overlapping subspaces accepted", subs=sp)
            rep.raises(ValueError, lambda: base_vectors(*sp), "reject/overlap/bv", "overlapping subspaces accepted", subs=sp)


def run(rep):
    sections(rep, simple, multi, rejects)
