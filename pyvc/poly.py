"""Back end for polynomial identities: a goal p == q follows from equational
hypotheses if the normal form of p - q modulo a Groebner basis of them is 0."""
import time

import z3


def to_sympy(e, env, side):
    import sympy as sp
    if z3.is_rational_value(e):
        f = e.as_fraction()
        return sp.Rational(f.numerator, f.denominator)
    if z3.is_int_value(e):
        return sp.Integer(e.as_long())
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        return sp.Add(*[to_sympy(c, env, side) for c in e.children()])
    if k == z3.Z3_OP_SUB:
        cs = [to_sympy(c, env, side) for c in e.children()]
        return cs[0] - sum(cs[1:])
    if k == z3.Z3_OP_MUL:
        r = sp.Integer(1)
        for c in e.children():
            r = r * to_sympy(c, env, side)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -to_sympy(e.children()[0], env, side)
    if k == z3.Z3_OP_POWER and z3.is_int_value(e.children()[1]):
        return to_sympy(e.children()[0], env, side) ** e.children()[1].as_long()
    if k == z3.Z3_OP_TO_REAL:
        return to_sympy(e.children()[0], env, side)
    if k == z3.Z3_OP_DIV:
        a, b = e.children()
        key = ("inv", z3.simplify(b).sexpr())
        if key not in env:
            import sympy as sp2
            env[key] = sp2.Symbol("w%d" % len(env))
            side.append((b, env[key]))
        return to_sympy(a, env, side) * env[key]
    if k == z3.Z3_OP_ITE:
        raise ValueError("ite")
    # any other term is an opaque symbol
    key = e.sexpr()
    if key not in env:
        env[key] = sp.Symbol("x%d" % len(env))
    return env[key]


def conjuncts(f):
    if z3.is_and(f):
        for c in f.children():
            yield from conjuncts(c)
    else:
        yield f


class _Limit(BaseException):
    pass


def entails(hyps, goal, limit=20):
    import signal
    import threading
    main = threading.current_thread() is threading.main_thread()

    def stop(*a):
        raise _Limit()
    old = signal.signal(signal.SIGALRM, stop) if main else None
    if main:
        signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return _entails(hyps, goal, limit)
    except _Limit:
        return False
    except Exception:
        return False
    finally:
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)


def _entails(hyps, goal, limit):
    import sympy as sp
    goals = list(conjuncts(goal))
    env, side = {}, []
    eqs = []
    ps = []
    for g in goals:
        if not (z3.is_eq(g) and z3.is_real(g.arg(0))):
            return False
        ps.append(sp.expand(to_sympy(g.arg(0), env, side) - to_sympy(g.arg(1), env, side)))
    for h in hyps:
        for c in conjuncts(h):
            if z3.is_eq(c) and (z3.is_real(c.arg(0)) or z3.is_int(c.arg(0))):
                try:
                    eqs.append(sp.expand(to_sympy(c.arg(0), env, side) - to_sympy(c.arg(1), env, side)))
                except ValueError:
                    pass
    # inverses of denominators: b*w == 1 is used only when b != 0 follows from the hypotheses
    done = 0
    while done < len(side):
        b, w = side[done]
        done += 1
        s = z3.Solver()
        s.set("timeout", 2000)
        for h in hyps:
            s.add(h)
        s.add(b == 0)
        if s.check() == z3.unsat:
            eqs.append(sp.expand(to_sympy(b, env, side) * w - 1))
    # keep the equations connected with the goal
    syms = set()
    for p in ps:
        syms |= p.free_symbols
    used = []
    change = True
    rest = [e for e in eqs if e != 0]
    while change:
        change = False
        for e in list(rest):
            if e.free_symbols & syms:
                used.append(e)
                rest.remove(e)
                syms |= e.free_symbols
                change = True
    if all(p == 0 for p in ps):
        return True
    gens = sorted(syms, key=str)
    if not used:
        return all(sp.expand(p) == 0 for p in ps)
    G = sp.groebner(used, *gens, order="grevlex")
    return all(G.reduce(p)[1] == 0 for p in ps)


def is_equation(f):
    """A conjunction of equations between reals (where the normal form may help)."""
    return all(z3.is_eq(g) and z3.is_real(g.arg(0)) for g in conjuncts(f))
