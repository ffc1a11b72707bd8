"""Bounded conformance stage: the real code under CPython against independent oracles.

Run as   /opt/venv/bin/python -m conf.harness C01 --seed 1 --tier quick --out OUT.json
Every random choice comes from the seed.  Nothing here is counted as proved.
"""
import argparse
import importlib
import json
import os
import random
import sys
import time
import traceback

sys.path.insert(0, os.environ.get("HP_REPO", "/repo"))
sys.dont_write_bytecode = True


class Stop(Exception):
    pass


class Rep:
    def __init__(self, prop, seed, tier, budget):
        self.prop, self.seed, self.tier = prop, seed, tier
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.budget = budget
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.fails = []
        self.keys = set()
        self.sections = {}
        self.section = "main"
        self.section_end = None

    def left(self):
        t = time.time()
        return t - self.t0 < self.budget and (self.section_end is None or t < self.section_end)

    def rounds(self, n_quick, n_thorough=None):
        """Yield round numbers while time remains (always at least a quarter of them)."""
        n = n_quick if self.tier == "quick" else (n_thorough or 10 * n_quick)
        for i in range(n):
            if i * 4 >= n_quick and not self.left():
                return
            yield i

    def case(self, sig=None):
        """Count one evaluation; sig identifies a distinct non-trivial case."""
        self.evaluations += 1
        self.sections[self.section] = self.sections.get(self.section, 0) + 1
        if sig is not None:
            self.distinct.add(hash((self.section, sig)))
            if len(self.samples) < 12 and (not self.samples or self.samples[-1][0] != self.section):
                self.samples.append((self.section, str(sig)[:300]))

    def fail(self, key, what, **inp):
        if key not in self.keys:
            self.keys.add(key)
            self.fails.append({"key": key, "section": self.section, "what": str(what)[:1500],
                               "input": {k: repr(v)[:1500] for k, v in inp.items()}})
        if len(self.fails) >= 8:
            raise Stop()

    def expect(self, cond, key, what, **inp):
        if not cond:
            self.fail(key, what, **inp)
        return bool(cond)

    def raises(self, exc, fn, key, what, **inp):
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:       # noqa
            self.fail(key, "%s: expected %s, got %s: %s" % (what, exc, type(e).__name__, e), **inp)
            return False
        self.fail(key, "%s: expected %s, got a result %r" % (what, exc, r), **inp)
        return False


def sections(rep, *fns):
    """Run the sections, giving each an equal share of the remaining budget."""
    for i, fn in enumerate(fns):
        rep.section = fn.__name__
        now = time.time()
        share = max(0.5, (rep.t0 + rep.budget - now) / (len(fns) - i))
        rep.section_end = now + share
        state = rep.rng.getstate()
        try:
            fn(rep)
        except Stop:
            raise
        except Exception as e:
            tb = traceback.format_exc()
            rep.fail("exception/%s" % rep.section, "unexpected %s: %s" % (type(e).__name__, tb[-1400:]))
        rep.rng.setstate(state)
        rep.rng.random()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=45)
    ap.add_argument("--out", default=None)
    a = ap.parse_args()
    rep = Rep(a.prop, a.seed, a.tier, a.budget)
    err = None
    try:
        mod = importlib.import_module("conf.%s" % a.prop.lower())
        rep.t0 = time.time()
        mod.run(rep)
    except Stop:
        pass
    except Exception:
        # importing or driving the code under test failed
        rep.fail("exception", traceback.format_exc()[-1400:])
    res = {"prop": a.prop, "seed": a.seed, "tier": a.tier, "evaluations": rep.evaluations,
           "distinct_nontrivial": len(rep.distinct), "sections": rep.sections, "samples": rep.samples,
           "fails": rep.fails, "wall_s": time.time() - rep.t0}
    text = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, "w") as f:
            f.write(text)
    else:
        print(text)


if __name__ == "__main__":
    # the module under python -m is __main__; oracles import conf.harness
    from conf.harness import main as _main
    _main()
