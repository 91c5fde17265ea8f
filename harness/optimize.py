"""Optimization runs: python -m harness.optimize SEED COUNT OUT [SCENARIOS]"""
import json, os, random, sys
from fractions import Fraction
import numpy as np
from .base import *
from gerrychain.constraints import Validator
from gerrychain.optimization import SingleMetricOptimizer

os.environ["TQDM_DISABLE"] = "1"
FORMS = {
    "int": lambda s: s, "float": lambda s: s / 4 - 2.0, "neg": lambda s: -10 + s, "fraction": lambda s: Fraction(s, 3),
    "np": lambda s: np.float64(s), "tuple": lambda s: (s // 2, s % 2), "zero": lambda s: s - 2, "bool": lambda s: s > 1, "str": lambda s: "abcdefgh"[s],
}


class Run:
    def __init__(self, rng, maximize, form):
        self.rng, self.ev, self.tags = rng, [], {form}
        self.max, self.form = maximize, form
        n, E = shape(rng, 2, 6)
        k = rng.randint(1, min(3, n))
        L, DL = node_labels(rng, n), part_labels(rng, k)
        self.L, self.DL = L, DL
        a = rand_asg(rng, n, k)
        self.p0 = fresh_class()(build(rng, n, E, L), {L[v]: DL[a[v] - 1] for v in range(n)})
        if rng.random() < 0.2:       # a first plan with a past
            for _ in range(rng.randint(1, 2)):
                self.p0 = self.p0.flip({rng.choice(L): rng.choice(DL)})
            self.tags.add("initial-plan-with-past")
        self.plans, self.ids, self.scores = [self.p0], {id(self.p0): 0}, []
        self.okay = {0: True}
        self.ans = {}
        self.nxt = None
        self.opt = None

    def idx(self, p):
        return self.ids.get(id(p), -5)

    def emit(self, **kw):
        self.ev.append(kw)

    def propose(self, p):
        s, acc, ok = self.nxt()
        rng = self.rng
        q = p.flip({rng.choice(self.L): rng.choice(self.DL) for _ in range(rng.randint(0, 2))})
        i = len(self.plans)
        self.plans.append(q)
        self.ids[id(q)] = i
        self.scores.append(s)
        self.okay[i], self.ans[i] = ok, acc
        self.emit(k="prop", **{"from": self.idx(p)}, id=i, ok=int(ok))
        return q

    def valid(self, p):
        return self.okay.get(self.idx(p), True)

    def accept(self, p):
        i = self.idx(p)
        a = self.ans.get(i, True)
        self.emit(k="acc", id=i, ans=int(a))
        return a

    def score(self, p):
        i = self.idx(p)
        return FORMS[self.form](self.scores[i])

    def unscore(self, x):
        for s in range(0, 7):
            y = FORMS[self.form](s)
            if type(y) in (tuple, str) and type(x) != type(y):
                continue
            if x is not None and y == x and s in self.scores:
                if self.form == "bool":
                    return next(t for t in sorted(self.scores) if FORMS["bool"](t) == y)
                return s
        return -77

    def make(self):
        rng = self.rng
        c = [self.valid, lambda p: True]
        c = Validator(c) if rng.random() < 0.4 else rng.choice([list, tuple, iter])(c) if rng.random() < 0.5 else self.valid
        kw = {} if self.max and rng.random() < 0.5 else dict(maximize=self.max)
        self.opt = SingleMetricOptimizer(self.propose, c, self.p0, self.score, **kw)

    def run(self, kind, ln, steps, buffer, stop=None):
        """kind: short variable tiltedbursts tilted anneal.  steps: plans announced."""
        rng, o = self.rng, self.opt
        bar = {} if rng.random() < 0.8 else dict(with_progress_bar=True)
        user, rule = dict(accept=self.accept), "user"
        if rng.random() < 0.15:        # nothing given: every valid plan is taken
            user, rule = {}, "p1"
        p = rng.choice([0, 0.25, 0.5, 1])
        if kind == "short":
            g = o.short_bursts(ln, steps // ln, **user, **bar)
        elif kind == "variable":
            g = o.variable_length_short_bursts(steps, buffer, **user, **bar)
        elif kind == "tiltedbursts":
            g = o.tilted_short_bursts(ln, steps // ln, p, **bar)
        elif kind == "tilted":
            g = o.tilted_run(steps, p, **bar)
        else:
            b, rule = rng.choice([(o.jumpcycle_beta_function(1, 2), "free"), (lambda t: 1, "free"), (lambda t: 0, "p1")])
            g = o.simulated_annealing(steps, b, beta_magnitude=rng.choice([0.5, 1, 3]), **bar)
        if kind.startswith("tilted"):
            rule = {0: "p0", 1: "p1"}.get(p, "free")
        self.tags |= {"rule-" + rule, kind, "maximize" if self.max else "minimize"}
        self.emit(k="start", kind="variable" if kind == "variable" else "bursts",
                  len=2 if kind == "variable" else ln if "burst" in kind or kind == "short" else steps, steps=steps, buffer=buffer, rule=rule)
        cnt = 0
        for q in g:
            cnt += 1
            self.emit(k="yield", id=self.idx(q), best=self.idx(o.best_part), bs=self.unscore(o.best_score))
            if cnt > steps + 3:
                break
            if stop and cnt >= stop:
                self.emit(k="left")
                self.tags.add("abandoned")
                return
        self.emit(k="end", best=self.idx(o.best_part), bs=self.unscore(o.best_score))


def rand(rng):
    maxi = rng.random() < 0.5
    form = rng.choice(list(FORMS))
    R = Run(rng, maxi, form)
    top = rng.choice([2, 3, 5])
    climb = rng.random() < 0.3
    R.scores.append(rng.randint(1, top))

    def nxt():
        s = rng.randint(1, top)
        if climb and rng.random() < 0.7:
            s = 1 if maxi else top
        return s, rng.random() < 0.6, rng.random() < 0.85
    R.nxt = nxt
    R.make()
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(["short", "variable", "variable", "tiltedbursts", "tilted"] + ["anneal"] * (form in ("int", "float", "fraction", "np", "neg", "zero")))
        ln = rng.choice([1, 2, 3, 5])
        steps = ln * rng.randint(1, 5) if kind in ("short", "tiltedbursts") else rng.choice([1, 2, 3, 7, 12, 25, 40])
        R.run(kind, ln, steps, rng.choice([1, 1, 2, 3]), stop=None if rng.random() < 0.8 else rng.randint(1, steps))
    return R


def replay(rng, sc):
    R = Run(rng, bool(sc["max"]), rng.choice(["int", "float", "neg", "zero", "np", "tuple"]))
    R.scores.append(sc["s0"])
    ops = list(sc["ops"])

    def nxt():
        if not ops:      # more proposals than the behaviour has: judged from the trace
            return 1, True, True
        if rng.random() < 0.1:
            return rng.randint(1, 3), True, False
        s, a = ops.pop(0)
        return s, bool(a), True
    R.nxt = nxt
    R.make()
    R.run("variable" if sc["kind"] == "variable" else "short", sc["len"], sc["steps"], sc["buffer"])
    R.tags.add("generated")
    return R


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    scen = sys.argv[4] if len(sys.argv) > 4 else None
    D = Driver(out)
    jobs = [json.loads(x) for x in open(scen)] if scen else [None] * count
    for j, sc in enumerate(jobs):
        if not D.more():
            break
        rng = random.Random(f"opt-{seed}-{j}")
        random.seed(j)
        box = []
        try:
            old = Run.__init__

            def keep(self, *a):
                box.append(self)
                old(self, *a)
            Run.__init__ = keep
            with guard(30):
                R = replay(rng, sc) if sc else rand(rng)
        except Exception as e:  # noqa
            R = box[0]
            R.emit(k="raised", exc=exc_name(e), detail=trace_of(e))
            D.failed += 1
        finally:
            Run.__init__ = old
        sc_ = [int(FORMS["bool"](s)) for s in R.scores] if R.form == "bool" else R.scores
        ev = R.ev
        if R.form == "bool":
            ev = [dict(e, bs=int(e["bs"] > 1)) if "bs" in e and e["bs"] >= 0 else e for e in ev]
        D.add(dict(max=int(R.max), scores=sc_, ev=ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
