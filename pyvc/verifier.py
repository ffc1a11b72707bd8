"""The deductive verifier: path enumeration, loop cutting, obligations, back ends.

A *task* is one contract: it builds arbitrary arguments satisfying the
precondition, runs the real function (its syntax tree, parsed from /repo on this
run) and states postconditions.  Loops with a symbolic number of iterations are
cut by invariants: every invariant is proved at entry and preserved by an
arbitrary iteration, the code after the loop sees only the invariant.
Calls to functions under contract (task.uses) see the contract, not the body.
"""
import ast
import os
import subprocess
import tempfile
import time
import traceback

import numpy as np
import z3

from .sym import (S, Cx, Ctx, Unsupported, PathEnd, PyRaise, fresh, tobool, z, zi, zr, zbv, sort_of, is_num, ite, cparts)
from .interp import (Interp, BreakSig, ContinueSig, ReturnSig, Obj, Func, Bound, PDict, UNBOUND, Module, PyClass, Native)
from fractions import Fraction


class Restart(Exception):
    """An invariant candidate was dropped or a new heap location found: verify the task again."""


class Timeout(Exception):
    pass


class Task:
    def __init__(self, name, body, functions=(), uses=None, assumes=(), invariants=None, max_paths=400,
                 timeout=20, budget=120, replay=None, pre=None, modules=()):
        self.name = name
        self.body = body
        self.functions = list(functions)
        self.uses = uses or {}
        self.assumes = list(assumes)
        self.invariants = invariants      # fn(loop) -> list of (label, fn(state)->formula)
        self.max_paths = max_paths
        self.timeout = timeout            # seconds per obligation
        self.budget = budget              # seconds per task
        self.replay = replay
        self.modules = modules
        self.branch_ms = None             # time limit of a feasibility question


class Obligation:
    __slots__ = ("task", "label", "status", "backend", "time", "detail", "exact")

    def __init__(self, task, label):
        self.task, self.label = task, label
        self.status = "open"
        self.backend = ""
        self.time = 0.0
        self.detail = ""
        self.exact = True


class Loop:
    """What an invariant generator may look at."""

    def __init__(self, ver, rt, stmt, env, sym, key, kind):
        self.ver, self.rt, self.stmt, self.env, self.sym, self.key, self.kind = ver, rt, stmt, env, sym, key, kind
        self.qual = key[0]
        self.entry = {}      # carried local -> value at entry
        self.heap = {}       # path -> (object, snapshot)
        self.n = None


class State:
    """Values at one point of a loop: locals, counter k, loop."""

    def __init__(self, loop, k, env):
        self.loop, self.k, self.env = loop, k, env
        self.assuming = False      # stated as a hypothesis (any instances), not as a goal

    def __getitem__(self, name):
        return self.env.vars[name]

    def obj(self, path):
        return self.loop.heap[path][0]


class Verifier:
    branch_timeout = 3000

    def __init__(self):
        self.sources = set()
        self.functions = set()
        self.branch_time = 0.0
        self.branch_queries = 0
        self.todo = []
        self.task = None
        self.global_axioms = []
        self.axiom_keys = {}
        self.results = []
        self.solver_time = 0.0
        self.houdini = {}
        self.demoted = {}
        self.heapmods = {}
        self.ticks = 0
        self.deadline = None
        self.proof_cache = {}
        self.texts = {}
        self.peeled = set()
        self.after_locals = set()
        self.slack = 1            # time limits of single questions are multiplied by this
        self.unanswered = 0       # questions that hit their limit
        self.rt = None
        pi = z3.Real("pi")
        self.add_axiom("pi", z3.And(pi > z3.RealVal("3.14159265358979"), pi < z3.RealVal("3.14159265358980")))
        self.rt = Interp(self)

    # -- hooks used by the interpreter ---------------------------------------
    def tick(self):
        self.ticks += 1
        if self.deadline and (self.ticks & 63) == 0 and time.time() > self.deadline:
            raise Timeout()

    def contract(self, qual):
        if self.task is None or Ctx.cur is None:
            return None
        return self.task.uses.get(qual)

    def note_global_write(self, mod, name):
        c = Ctx.cur
        if c is not None and c.loops:
            raise Unsupported("module variable %s.%s written in a loop" % (mod, name))

    def note_write(self, obj, attr):
        c = Ctx.cur
        if c is None:
            return
        for sp in c.splits:
            sp.note_write(obj)
        if not c.loops:
            return
        obj = self.rt.seqs.storage(obj)
        if attr is None and not self.rt.seqs.is_mutable(obj) and not isinstance(obj, (list, dict, set, PDict, np.ndarray, Obj)):
            return
        for fr in c.loops:
            p = fr.preexisting(obj)
            if p is None:
                continue
            mods = self.heapmods.setdefault(fr.key, [])
            item = (p, attr)
            if item not in mods:
                mods.append(item)
                # invariants given up before this write was known get another chance
                self.houdini.clear()
                raise Restart("heap " + str(item))

    def add_axiom(self, key, f):
        if key in self.axiom_keys:
            return
        self.axiom_keys[key] = f
        self.global_axioms.append(f)
        if Ctx.cur is not None:
            Ctx.cur.solver.add(f)

    def safety(self, c, label, f):
        if c.loading:
            if not c.prove_now(f):
                raise Unsupported("while importing: " + label)
            return
        self.prove(c, "safety: " + label, f)

    # -- proving --------------------------------------------------------------
    def text(self, a):
        """S-expression of a formula (kept, with the formula, so that its identity is not reused)."""
        i = a.get_id()
        if i not in self.texts:
            if len(self.texts) > 50000:
                self.texts.clear()
            self.texts[i] = (a, a.sexpr())
        return self.texts[i][1]

    def entails(self, c, f, timeout=None):
        """(status, backend, model): is pc => f valid?"""
        f = tobool(f)
        if f is True:
            return "proved", "simplifier", None
        t0 = time.time()
        try:
            goal = z3.Not(f) if f is not False else z3.BoolVal(True)
            tmo = (timeout or self.task.timeout) * self.slack
            key = None
            if f is not False:
                key = (f.sexpr(), tuple(self.text(a) for a in c.pc), len(self.global_axioms))
                if key in self.proof_cache:
                    return "proved", self.proof_cache[key], None
            from . import poly
            nonlin = f is not False and poly.is_equation(f)
            s = z3.Solver()
            s.set("timeout", int((0.3 if nonlin else min(tmo, 4 * self.slack)) * 1000))
            for a in self.global_axioms:
                s.add(a)
            for a in c.pc:
                s.add(a)
            s.add(goal)
            r = s.check()
            if r == z3.unknown and nonlin:
                if poly.entails(self.global_axioms + c.pc, f):
                    self.proof_cache[key] = "polynomial normal form (sympy)"
                    return "proved", "polynomial normal form (sympy)", None
                s.set("timeout", int(min(tmo, 4 * self.slack) * 1000))
                r = s.check()
            if r == z3.unsat and key is not None:
                self.proof_cache[key] = "z3 " + z3.get_version_string()
            if r == z3.unsat:
                return "proved", "z3 " + z3.get_version_string(), None
            model = s.model() if r == z3.sat else None
            if r == z3.unknown:
                r2, backend = self.external(self.global_axioms + c.pc + [goal], tmo)
                if r2 == "unsat":
                    return "proved", backend, None
                if r2 == "sat":
                    return "failed", backend, None
                self.unanswered += 1
                return "unknown", "z3/cvc5", None
            return "failed", "z3 " + z3.get_version_string(), model
        finally:
            self.solver_time += time.time() - t0

    def external(self, fs, tmo):
        s = z3.Solver()
        for f in fs:
            s.add(f)
        text = s.to_smt2()
        if "set-logic" not in text:
            text = "(set-logic ALL)\n" + text
        d = tempfile.mkdtemp(prefix="pyvc")
        p = os.path.join(d, "q.smt2")
        procs = []
        try:
            with open(p, "w") as f:
                f.write(text)
            for name, cmd in (("cvc5", ["cvc5", "--tlimit=%d" % (tmo * 1000), "--nl-ext-tplanes", p]),
                              ("z3-new", ["z3-new", "-T:%d" % tmo, p]),
                              ("z3 4.8", ["z3", "-T:%d" % tmo, p])):
                try:
                    procs.append((name, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            end = time.time() + tmo + 2
            pending = list(procs)
            while pending and time.time() < end:
                for it in list(pending):
                    if it[1].poll() is not None:
                        pending.remove(it)
                        out = it[1].stdout.read().strip().splitlines()
                        if out and out[0] in ("unsat", "sat"):
                            return out[0], it[0]
                time.sleep(0.02)
            return "unknown", ""
        finally:
            for _, q in procs:
                if q.poll() is None:
                    q.kill()
                q.wait()
                q.stdout.close()
            os.unlink(p)
            os.rmdir(d)

    def prove(self, c, label, f, timeout=None):
        o = Obligation(self.task.name, label)
        t0 = time.time()
        f0 = f
        f = tobool(f)
        if f is False and not c.feasible():
            o.status, o.backend = "proved", "z3 (path infeasible)"
        else:
            o.status, o.backend, model = self.entails(c, f, timeout)
            if o.status != "proved":
                o.detail = self.describe(c, f, model)
                o.exact = not c.abstract
                o_model = model
                if model is not None and self.task.replay is not None:
                    try:
                        o.detail += "\nreplay input: %r" % (self.task.replay(c, model),)
                    except Exception as e:
                        o.detail += "\n(no replay input: %r)" % (e,)
        o.time = time.time() - t0
        self.pending.append(o)
        return o.status == "proved"

    def describe(self, c, f, model):
        out = ["path %s" % "".join(c.trace), "goal: %s" % str(f)[:600]]
        if model is not None:
            vals = ["%s = %s" % (d.name(), str(model[d])[:80]) for d in model.decls()[:40]]
            out.append("counter-model: " + ", ".join(vals))
        return "\n".join(out)

    # -- running a task ----------------------------------------------------------
    def run_task(self, task):
        self.task = task
        t0 = time.time()
        out = {"task": task.name, "functions": task.functions, "paths": 0, "status": "proved", "obligations": [],
               "error": "", "restarts": 0, "assumes": task.assumes}
        self.deadline = t0 + task.budget
        self.peeled = set()
        self.functions_seen = set()
        try:
            for m in task.modules:
                self.rt.load(m)
            self.rt.snapshot()
            while True:
                try:
                    self.enumerate(task, out)
                    break
                except Restart as e:
                    out["restarts"] += 1
                    if os.environ.get("PYVC_TRACE"):
                        print("RESTART", e)
                    if out["restarts"] > 400:
                        raise Unsupported("no fixpoint of the invariants: %s" % e)
        except Unsupported as e:
            out["status"] = "unsupported"
            out["error"] = str(e)
            self.keep(out)
        except Timeout:
            out["status"] = "timeout"
            self.keep(out)
        except RecursionError as e:
            out["status"] = "unsupported"
            out["error"] = "recursion: %s" % e
        except z3.Z3Exception as e:
            out["status"] = "unsupported"
            out["error"] = "z3: %s" % e + traceback.format_exc()[-1500:]
        except Exception as e:      # a construct the model does not cover
            out["status"] = "unsupported"
            out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        finally:
            Ctx.cur = None
            self.task = None
            self.deadline = None
            self.rt.restore()
        if out["status"] == "proved":
            if not out["obligations"]:
                out["status"], out["error"] = "unsupported", "vacuous: no obligation was generated"
            elif not out.get("live"):
                out["status"], out["error"] = "unsupported", "vacuous: no feasible complete path"
            for o in out["obligations"]:
                if o.status == "failed":
                    out["status"] = "failed"
                    break
                if o.status == "unknown":
                    out["status"] = "unknown"
        out["wall"] = time.time() - t0
        self.results.append(out)
        return out

    def keep(self, out):
        out["obligations"] = list(self.pending)
        if any(o.status == "failed" for o in self.pending):
            out["status"] = "failed"

    def enumerate(self, task, out):
        self.todo = [[]]
        self.pending = []
        out["paths"] = 0
        out["live"] = 0
        out["raised"] = {}
        while self.todo:
            script = self.todo.pop()
            out["paths"] += 1
            if out["paths"] > task.max_paths:
                raise Unsupported("more than %d paths" % task.max_paths)
            self.rt.restore()
            self.after_locals = set()
            self.branch_timeout = int((task.branch_ms or Verifier.branch_timeout) * self.slack)
            c = Ctx(self, script)
            c.abstract = False
            for a in self.global_axioms:
                c.solver.add(a)
            Ctx.cur = c
            try:
                task.body(self.rt, c)
                # first complete feasible paths show the contract is not vacuous
                if out["live"] < 3 and c.feasible_sure():
                    out["live"] += 1
            except PathEnd:
                pass
            except PyRaise as e:
                what = e.exc.cls.name if isinstance(e.exc, Obj) else type(e.exc).__name__
                self.prove(c, "no unexpected exception (%s)" % what, z3.BoolVal(False))
            except (BreakSig, ContinueSig, ReturnSig):
                raise Unsupported("control flow escaped")
            finally:
                Ctx.cur = None
        out["obligations"] = self.pending

    # -- loops -----------------------------------------------------------------
    def loop_key(self, rt, stmt, env):
        f = env.func
        e = env
        while f is None and e is not None:
            e = e.parent
            f = e.func if e else None
        qual = f.qual if f else env.mod.name
        loops = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))] if f else [stmt]
        stmt = getattr(stmt, "origin", stmt)
        idx = [i for i, n in enumerate(loops) if n is stmt]
        depth = tuple(fr.key for fr in Ctx.cur.loops)
        return (qual, idx[0] if idx else stmt.lineno, len(depth))

    def assigned(self, stmts, extra=()):
        names = []

        def add(t):
            if isinstance(t, ast.Name):
                if t.id not in names:
                    names.append(t.id)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    add(x)
            elif isinstance(t, ast.Starred):
                add(t.value)
        todo = list(stmts)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    add(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                add(n.target)
            elif isinstance(n, ast.For):
                add(n.target)
            elif isinstance(n, ast.NamedExpr):
                add(n.target)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                if n.name not in names:
                    names.append(n.name)
                continue
            elif isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                continue
            elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in names:
                names.append(n.name)
            todo.extend(ast.iter_child_nodes(n))
        for t in extra:
            add(t)
        return names

    def cut_for(self, rt, stmt, env, sym):
        return self.cut(rt, stmt, env, sym, "for")

    def cut_while(self, rt, stmt, env):
        return self.cut(rt, stmt, env, None, "while")

    def cut(self, rt, stmt, env, sym, kind):
        c = Ctx.cur
        if c.pure:
            raise Unsupported("loop in a pure context")
        key = self.loop_key(rt, stmt, env)
        self.cutting = key
        loop = Loop(self, rt, stmt, env, sym, key, kind)
        names = self.assigned(stmt.body, [stmt.target] if kind == "for" else [])
        tnames = set(self.assigned([], [stmt.target])) if kind == "for" else set()
        first = 0
        if kind == "for" and key in self.peeled:
            # the first iteration binds a variable later ones read: run it on its own
            n0 = sym.length(rt)
            if not rt.truth(S(rt.seqs.positive(n0))):
                rt.exec_block(stmt.orelse, env)
                return
            try:
                rt.assign(stmt.target, sym.at(rt, rt.seqs.zero_like(n0)), env)
                try:
                    rt.exec_block(stmt.body, env)
                except ContinueSig:
                    pass
            except BreakSig:
                return
            first = 1
        demoted = self.demoted.setdefault((self.task.name, key), set())
        carried = [n for n in names if n in env.vars and env.vars[n] is not UNBOUND and n not in tnames and n not in demoted]
        local = [n for n in names if n not in carried]
        for n in carried:
            loop.entry[n] = env.vars[n]
        self.no_alias(rt, env, carried)
        frame = LoopFrame(key, rt, env)
        loop.frame = frame
        mods = self.heapmods.get(key, [])
        for path, attr in mods:
            o = frame.resolve(path)
            if o is None:
                raise Unsupported("cannot find a location modified by the loop: %s" % (path,))
            loop.heap[(path, attr)] = (o, rt.seqs.heap_snapshot(rt, o, attr))
        n = sym.length(rt) if kind == "for" else None
        loop.n = n
        zero = rt.seqs.zero_like(n) if kind == "for" else 0
        loop.first = first
        if first:
            zero = rt.binop("+", zero, 1)
        cands = []
        gens = list(self.task.invariants(loop)) if self.task.invariants else []
        gens += list(rt.seqs.default_invariants(loop))
        dropped = self.houdini.setdefault((self.task.name, key), set())
        for label, fn in gens:
            if label not in dropped:
                cands.append((label, fn))
        # entry
        bad = []
        for label, fn in list(cands):
            f = self.inv(fn, State(loop, zero, env))
            st, be, model = ("undefined", "", None) if f is None else self.entails(c, f, 8)
            if st != "proved":
                if os.environ.get("PYVC_TRACE"):
                    print("DROP entry", key, label, st, "path", c.trace)
                    if os.environ.get("PYVC_TRACE") == "2" and f is not None:
                        print(self.describe(c, f, model))
                    if f is None:
                        try:
                            fn(State(loop, zero, env))
                        except Exception as e:
                            print("   ", type(e).__name__, e)
                dropped.add(label)
                bad.append(label)
                continue
            self.note_ob("loop %s#%s: invariant initially: %s" % (key[0], key[1], label))
        if bad:
            raise Restart("entry %s" % bad)
        which = c.choose(2, "L%s" % key[1])
        c.abstract = True
        # havoc
        for nme in carried:
            env.vars[nme] = rt.seqs.havoc(rt, env.vars[nme], nme)
        for (path, attr), (o, snap) in loop.heap.items():
            rt.seqs.heap_havoc(rt, o, attr, snap)
        for nme in local:
            env.vars[nme] = UNBOUND
        if local and kind == "for" and not first:
            self.after_locals.update((nm, key) for nm in local if nm not in tnames)
        if kind == "for":
            k = rt.seqs.fresh_counter(n) if which == 0 else n
        else:
            k = fresh("i", "iter")
            c.assume(k.e >= 0)
        if which == 1:
            # exit: all iterations done (a loop that runs zero times included)
            if kind == "for":
                if not tobool(rt.seqs.nonneg(n)) is True:
                    c.assume(rt.seqs.nonneg(n))
            for label, fn in cands:
                c.assume(self.inv_must(fn, State(loop, k, env)))
            if kind == "while":
                t = rt.eval(stmt.test, env)
                if rt.truth(t):
                    raise PathEnd()
            else:
                # targets keep the last value; unbound if no iteration ran
                for t in tnames:
                    env.vars[t] = UNBOUND
                if hasattr(stmt, "origin"):
                    # a while loop leaves its counter one step beyond the last iteration
                    env.vars[stmt.target.id] = rt.binop("+", sym.at(rt, rt.seqs.zero_like(n)), rt.binop("*", stmt.step, n))
                elif tnames and self.uses_after(env, stmt, tnames):
                    if rt.truth(S(rt.seqs.positive(n))):
                        rt.assign(stmt.target, sym.at(rt, rt.binop("-", n, 1)), env)
            rt.exec_block(stmt.orelse, env)
            return
        if kind == "for":
            c.assume(rt.seqs.in_range(k, n))
            if first:
                c.assume(rt.seqs.positive(k))
        for label, fn in cands:
            c.assume(self.inv_must(fn, State(loop, k, env)))
        frame.k, frame.n = k, n
        frame.locals = set(local) - tnames
        frame.kind = kind
        c.loops.append(frame)
        frame.entered(c)
        try:
            if kind == "for":
                rt.assign(stmt.target, sym.at(rt, k), env)
            else:
                if not rt.truth(rt.eval(stmt.test, env)):
                    raise PathEnd()
            try:
                rt.exec_block(stmt.body, env)
            except ContinueSig:
                pass
        except BreakSig:
            c.loops.remove(frame)
            frame.broke = True
            return
        except (ReturnSig, PyRaise):
            c.loops.remove(frame)
            raise
        c.loops.remove(frame)
        for nme in carried:
            try:
                rt.seqs.check_kind(rt, loop.entry[nme], env.vars[nme], nme)
            except Unsupported as e:
                if env.vars[nme] is UNBOUND:
                    # possibly not bound by the body: its old value cannot be relied on
                    demoted.add(nme)
                    raise Restart("%s is not carried" % nme)
                if kind != "for":
                    raise
                self.cutting = key
                self.peel_now(str(e))
        self.no_alias(rt, env, carried)
        k1 = rt.binop("+", k, 1)
        for label, fn in list(cands):
            f = self.inv(fn, State(loop, k1, env))
            if f is None:
                dropped.add(label)
                bad.append(label)
                continue
            st, be, model = self.entails(c, f, 10)
            if st != "proved":
                if os.environ.get("PYVC_TRACE"):
                    print("DROP", key, label, st, "path", c.trace)
                    if os.environ.get("PYVC_TRACE") == "2":
                        print(self.describe(c, f, model))
                dropped.add(label)
                bad.append(label)
                continue
            self.note_ob("loop %s#%s: invariant preserved: %s" % (key[0], key[1], label), be)
        if bad:
            raise Restart("step %s" % bad)
        raise PathEnd()

    def no_alias(self, rt, env, names):
        """Loop-carried mutable values are forgotten separately, so they must be different objects."""
        seen = {}
        for n in names:
            v = env.vars[n]
            if rt.seqs.is_mutable(v) or isinstance(v, np.ndarray):
                o = rt.seqs.storage(v)
                if id(o) in seen:
                    raise Unsupported("loop-carried variables %s and %s share an object" % (seen[id(o)], n))
                seen[id(o)] = n

    def peel_now(self, why):
        """Ask for the first iteration of the loop being cut to run on its own."""
        if self.cutting in self.peeled:
            raise Unsupported(why)
        self.peeled.add(self.cutting)
        self.houdini.clear()
        raise Restart(why)

    def unbound_read(self, name):
        """A variable bound only inside a cut loop is read where an earlier iteration binds it."""
        c = Ctx.cur
        if c is None:
            return
        for nm, key in self.after_locals:
            if nm == name and key not in self.peeled:
                self.peeled.add(key)
                self.houdini.clear()
                raise Restart("first iteration of %s on its own" % (key,))

    def uses_after(self, env, stmt, names):
        f = env.func
        if f is None:
            return False
        end = stmt.end_lineno
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and x.id in names and isinstance(x.ctx, ast.Load) and x.lineno > end:
                return True
        return False

    def inv(self, fn, st):
        try:
            f = fn(st)
        except (Unsupported, PyRaise, AttributeError, KeyError, TypeError, z3.Z3Exception):
            return None
        if f is None:
            return None
        return tobool(f)

    def inv_must(self, fn, st):
        st.assuming = True
        f = self.inv(fn, st)
        if f is None:
            raise Unsupported("invariant cannot be stated after havoc")
        return f

    def note_ob(self, label, backend="z3"):
        o = Obligation(self.task.name, label)
        o.status, o.backend = "proved", backend
        self.pending.append(o)


class LoopFrame:
    """Objects that existed when the loop was entered, by access path."""

    def __init__(self, key, rt, env):
        self.key = key
        self.rt = rt
        self.ids = {}
        self.keepalive = []
        self.broke = False
        seen = set()
        todo = []
        e = env
        depth = 0
        while e is not None:
            for n, v in e.vars.items():
                todo.append(((depth, n), v))
            e = e.parent
            depth += 1
        for n, v in env.mod.env.items():
            if isinstance(v, (list, PDict, np.ndarray, Obj)):
                todo.append((("g", n), v))
        while todo:
            path, v = todo.pop(0)
            if id(v) in seen or len(path) > 6:
                continue
            if isinstance(v, (Module, PyClass, Func, Native, str, int, type(None), Fraction, S, Cx)):
                continue
            seen.add(id(v))
            if isinstance(v, Obj):
                self.put(v, path)
                for a, x in v.attrs.items():
                    todo.append((path + (".", a), x))
            elif isinstance(v, np.ndarray):
                self.put(rt.seqs.storage(v), path)
            elif isinstance(v, list):
                self.put(v, path)
                for i, x in enumerate(v[:50]):
                    todo.append((path + ("[]", i), x))
            elif isinstance(v, tuple):
                for i, x in enumerate(v[:50]):
                    todo.append((path + ("[]", i), x))
            elif isinstance(v, PDict):
                self.put(v, path)
                for i, (k, x) in enumerate(v.items_[:50]):
                    todo.append((path + ("{}", i), x))
            elif isinstance(v, Bound):
                todo.append((path + (".self", 0), v.self_))
            elif rt.seqs.is_mutable(v):
                self.put(rt.seqs.storage(v), path)

    def put(self, v, path):
        if id(v) not in self.ids:
            self.ids[id(v)] = (v, path)

    def entered(self, c):
        pass

    def preexisting(self, obj):
        r = self.ids.get(id(obj))
        return r[1] if r is not None else None

    def resolve(self, path):
        for v, p in self.ids.values():
            if p == path:
                return v
        return None
