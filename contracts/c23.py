"""C23: exact permutation and combination counts."""
from .base import *
from pyvc.lib import _FACT, _COMB
from pyvc.sym import _POWER

M = "HamiltonianPy.tools.PandC"


def lemma_comb(h, n, k):
    """k! (n-k)! divides n! (mathematics; Lean: Nat.add_choose_mul_factorial_mul_factorial)."""
    c = _COMB(n, k)
    h.c.assume(z3.And(c * (_FACT(k) * _FACT(n - k)) == _FACT(n), _FACT(k) >= 1, _FACT(n - k) >= 1, _FACT(n) >= 1, c >= 1))
    return c


def lemma_perm(h, n, k):
    p = z3.Int("perm_nk")
    h.c.assume(z3.And(p * _FACT(n - k) == _FACT(n), _FACT(n - k) >= 1, p >= 1))
    return p


def products(loop):
    """Running products a loop may accumulate, with the recurrences that carry them one step on."""
    c = Ctx.cur
    if "nk" not in c.data or not loop.rt:
        return []
    N, K = c.data["nk"]
    out = []

    def at(name, f, facts):
        for nm, v0 in loop.entry.items():
            if isinstance(v0, bool) or not (isinstance(v0, int) or isinstance(v0, S) and sort_of(v0.e) == "i"):
                continue

            def inv(st, nm=nm):
                k = zi(st.k)
                for q in (k, k - 1):
                    for fact in facts(z3.simplify(q)):
                        c.assume(fact)
                return f(zi(st[nm]), k)
            out.append(("%s is %s" % (nm, name), inv))

    def fact_rec(m):
        return Implies(m >= 0, And(_FACT(m + 1) == (m + 1) * _FACT(m), _FACT(m) >= 1))
    zero = _FACT(z3.IntVal(0)) == 1
    for tag, M in (("n", N), ("n + k - 1", N + K - 1)):
        at("%s (%s - 1) ... over the iterations so far" % (tag, tag), lambda v, k, M=M: And(v * _FACT(M - k) == _FACT(M), _FACT(M - k) >= 1),
           lambda q, M=M: [Implies(q < M, _FACT(M - q) == (M - q) * _FACT(M - q - 1)), _FACT(M - q) >= 1])
        at("C(%s, iterations so far)" % tag, lambda v, k, M=M: v == _COMB(M, k),
           lambda q, M=M: [_COMB(M, z3.IntVal(0)) == 1, Implies(And(q >= 0, q < M), _COMB(M, q) * (M - q) == _COMB(M, q + 1) * (q + 1)),
                           Implies(And(K >= 0, K <= M), _COMB(M, K) == _COMB(M, M - K))])
        at("(%s - k + 1) ... over the iterations so far" % tag, lambda v, k, M=M: v * _FACT(M - K) == _FACT(M - K + k),
           lambda q, M=M: [fact_rec(M - K + q)])
        at("C(%s - k + iterations so far, iterations so far)" % tag, lambda v, k, M=M: v == _COMB(M - K + k, k),
           lambda q, M=M: [_COMB(M - K, z3.IntVal(0)) == 1, Implies(q >= 0, _COMB(M - K + q + 1, q + 1) * (q + 1) == _COMB(M - K + q, q) * (M - K + q + 1))])
    at("the factorial of the iterations so far", lambda v, k: v == _FACT(k), lambda q: [zero, fact_rec(q)])
    at("the power of n so far", lambda v, k: v == _POWER(N, k), lambda q: [_POWER(N, z3.IntVal(0)) == 1, Implies(q >= 0, _POWER(N, q + 1) == N * _POWER(N, q))])
    return out


def tasks():
    out = []
    LEM = ["mathematics: factorials are positive, k!(n-k)! divides n!, (n-k)! divides n!"]
    for fname in ("Permutation", "Combination"):
        for rep in (False, True, None):
            def body(h, fname=fname, rep=rep):
                f = h.get(M, fname)
                n, k = h.int("n"), h.int("k")
                h.requires(And(k.e >= 0, k.e <= n.e))
                args = (n, k) if rep is None else (n, k, rep)
                N, K = n.e, k.e
                h.c.data["nk"] = (N, K)
                if not rep:
                    want = lemma_perm(h, N, K) if fname == "Permutation" else lemma_comb(h, N, K)
                elif fname == "Permutation":
                    want = _POWER(N, K)
                    h.c.assume(Implies(K == 0, want == 1))
                else:
                    # (n+k-1)! / (k! (n-1)!) ; 1 when k == 0
                    if h.rt.truth(S(K == 0)):
                        want = z3.IntVal(1)
                    else:
                        want = lemma_comb(h, N + K - 1, K)
                        h.c.assume(_FACT(N - 1) == _FACT(N + K - 1 - K))
                r = h.ensure_ok("accepts 0 <= k <= n", h.outcome(f, *args))
                h.ensure("%s(n, k%s) is the exact integer count" % (fname, "" if rep is None else ", repeat=%s" % rep),
                         And(z3.BoolVal(is_num(r)), zi(r) == want) if not (isinstance(r, S) and sort_of(r.e) == "r") else False)
            out.append(Task("%s repeat=%s" % (fname, rep), lambda rt, c, b=body: b(H(rt, c)), [M + "." + fname], assumes=LEM, modules=[M], invariants=products))

        def bad(h, fname=fname):
            f = h.get(M, fname)
            kind = h.choose(["negn", "negk", "kbig", "realn", "realk"], "bad")
            n, k = h.int("n"), h.int("k")
            rep = h.choose([False, True], "rep")
            if kind == "negn":
                h.requires(n.e < 0)
            elif kind == "negk":
                h.requires(k.e < 0)
            elif kind == "kbig":
                h.requires(k.e > n.e)
            elif kind == "realn":
                n = h.real("x")
            else:
                k = h.real("x")
            out = h.outcome(f, n, k, rep)
            h.ensure("%s rejects %s" % (fname, kind), out[0] == "raise")
        out.append(Task("%s rejects bad arguments" % fname, lambda rt, c, b=bad: b(H(rt, c)), [M + "." + fname], modules=[M]))
    return out
