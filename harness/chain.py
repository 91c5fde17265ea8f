"""Runs of MarkovChain: python -m harness.chain SEED COUNT OUT [SCENARIOS]"""
import json, random, sys
import numpy as np
from .base import *
from gerrychain import MarkovChain, Partition
from gerrychain.constraints import Validator, UpperBound, Bounds


class Planned(Exception):
    pass


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()
        n, E = shape(rng, 2, 6)
        self.k = rng.randint(1, min(3, n))
        L, DL = node_labels(rng, n), part_labels(rng, self.k)
        self.L, self.DL = L, DL
        a = rand_asg(rng, n, self.k)
        G = build(rng, n, E, L)
        self.p0 = fresh_class()(G, {L[v]: DL[a[v] - 1] for v in range(n)})
        if rng.random() < 0.25:      # a first plan with a past
            for _ in range(rng.randint(1, 3)):
                self.p0 = self.p0.flip({rng.choice(L): rng.choice(DL) for _ in range(rng.randint(0, 2))})
            self.tags.add("initial-plan-with-past")
        self.plans = [self.p0]
        self.kind = {0: "yes"}       # what is to become of each plan
        self.nxt = []
        self.boom = None
        self.gen = 0                 # which set of constraints is in force

    def idx(self, p):
        for i, q in enumerate(self.plans):
            if q is p:
                return i
        return 10**6

    def emit(self, **kw):
        self.ev.append(kw)

    # -- the user's callbacks ------------------------------------------------
    def proposal(self, p):
        self.act = None
        kd = self.next_kind()
        self.cur_kind = kd
        if kd == "raise":
            self.boom = True
            raise Planned()
        if kd in ("self", "selfno"):
            self.emit(k="propose", **{"from": self.idx(p)}, p=self.idx(p), ok=int(self.valid(self.idx(p), self.gen)))
            self.kind[self.idx(p)] = self.kind.get(self.idx(p), "yes")
            return p
        rng = self.rng
        q = p.flip({rng.choice(self.L): rng.choice(self.DL) for _ in range(rng.randint(0, 2))})
        self.plans.append(q)
        i = len(self.plans) - 1
        self.kind[i] = kd
        self.emit(k="propose", **{"from": self.idx(p)}, p=i, ok=int(self.valid(i, self.gen)))
        return q

    def valid(self, i, gen):
        """bad: never valid; bad0, bad1: not under the one or the other set of constraints."""
        return self.kind.get(i) not in ("bad", "bad%d" % (gen % 2))

    def truth(self, j, m, gen=0):
        """Constraint j of m."""
        def c(p):
            i = self.idx(p)
            if self.boomc == (i, j):
                self.boomc = None
                raise Planned()
            bad = not self.valid(i, gen) and (i % m) == j
            v = not bad
            return np.bool_(v) if (i + j) % 3 == 0 else v
        c.__name__ = "constraint%d" % j
        return c

    def accept(self, p):
        i = self.idx(p)
        if self.cur_kind == "raiseacc":
            self.emit(k="accept", p=i, ans=0)
            raise Planned()
        ans = self.cur_kind not in ("no", "selfno")
        self.emit(k="accept", p=i, ans=int(ans))
        return self.rng.choice([ans, np.bool_(ans), int(ans)])

    # -- running ---------------------------------------------------------------
    def constraints(self, gen):
        rng = self.rng
        m = rng.randint(1, 3)
        self.boomc = None
        cs = [self.truth(j, m, gen) for j in range(m)]
        form = rng.randrange(4)
        if form == 0:
            arg = Validator(rng.choice([list, tuple, iter])(cs))
        elif form == 1:
            arg = rng.choice([list, tuple, iter, lambda x: (y for y in x)])(cs)
        elif form == 2:
            arg = lambda p: bool(all(c(p) for c in cs))
        else:
            def f(p):
                return sum(0 if c(p) else 1 for c in cs)
            arg = UpperBound(f, 0) if rng.random() < 0.5 else [UpperBound(f, 0)]
        self.tags.add("constraints-form-%d" % form)
        return arg

    def refused(self, n):
        """A chain that must not come to be: its first plan fails a constraint."""
        rng = self.rng

        def fails(p):
            return rng.choice([False, np.bool_(False)]) if p is self.p0 else True
        cs = [lambda p: True] * rng.randint(0, 2) + [fails]
        rng.shuffle(cs)
        form = rng.randrange(3)
        arg = Validator(rng.choice([list, tuple, iter])(cs)) if form == 0 else rng.choice([list, tuple, iter])(cs) if form == 1 else fails
        try:
            MarkovChain(self.proposal, arg, self.accept, self.p0, n)
        except ValueError:
            self.tags.add("refused-form-%d" % form)
            return
        raise AssertionError("a chain whose initial state fails its constraints was made")

    def make(self, n):
        if self.rng.random() < 0.3:
            self.refused(n)
        ch = MarkovChain(self.proposal, self.constraints(self.gen), self.accept, self.p0, n)
        if self.rng.random() < 0.3:   # replaced after construction
            self.replace(ch)
        return ch

    def replace(self, ch):
        """Other constraints from here on; or an attempt that is refused."""
        if self.rng.random() < 0.3:
            cs = [lambda p: True, lambda p: p is not self.p0]
            try:
                ch.constraints = self.rng.choice([cs, iter(cs), Validator(cs), cs[1]])
            except ValueError:
                self.tags.add("constraints-refused")
                return
            raise AssertionError("constraints that the initial state fails were accepted")
        ch.constraints = self.constraints(self.gen + 1)
        self.gen += 1
        self.tags.add("constraints-set-later")

    def depth(self, p):
        d = 0
        while p.parent is not None and d < 50:
            p = p.parent
            d += 1
        return d

    def yielded(self, p):
        i = self.idx(p)
        par = -2
        if isinstance(p, Partition):
            par = -1 if p.parent is None else self.idx(p.parent)
        self.emit(k="yield", p=i, depth=self.depth(p), par=par)

    def step(self, ch):
        """One call of next(); False at the end."""
        try:
            with guard(20):
                p = next(ch)
        except StopIteration:
            self.emit(k="stop", len=len(ch))
            return False
        except Planned:
            self.emit(k="raised", planned=1, exc="Planned")
            return True
        except Exception as e:  # noqa
            self.emit(k="raised", planned=0, exc=exc_name(e), detail=trace_of(e))
            raise
        self.yielded(p)
        return True

    def random_run(self):
        rng = self.rng
        n = self.n = rng.choice([1, 1, 2, 3, 5, 8, 13])
        w = rng.choice([{"bad": 3, "no": 2, "yes": 3, "self": 1, "selfno": 1}, {"yes": 1}, {"bad": 8, "yes": 1, "no": 1},
                        {"no": 1}, {"bad0": 2, "bad1": 2, "yes": 2, "no": 1, "self": 1}, {"bad0": 2, "bad1": 2, "yes": 2, "no": 1, "self": 1}, {"bad": 2, "no": 2, "yes": 3, "self": 1, "raise": 1, "raiseacc": 1}])
        ks = [k for k, c in w.items() for _ in range(c)]
        self.next_kind = lambda: rng.choice(ks)
        ch = self.make(n)
        for it in range(rng.randint(1, 3)):
            if it and rng.random() < 0.3:
                self.replace(ch)
            self.emit(k="iter")
            if rng.random() < 0.3:
                for p in (ch.with_progress_bar() if rng.random() < 0.2 and "raise" not in w else iter(ch)) if "raise" not in w else ():
                    self.yielded(p)
                if "raise" in w:
                    it_ = iter(ch)
                    while self.step(it_):
                        pass
                else:
                    self.emit(k="stop", len=len(ch))
            else:
                it_ = iter(ch)
                left = rng.choice([10**6, 10**6, rng.randint(1, n)])
                while left and self.step(it_):
                    left -= 1
                    if rng.random() < 0.05:
                        self.replace(ch)
                if rng.random() < 0.3 and left:    # asking again after the end
                    self.step(it_)
                if not left:
                    self.tags.add("abandoned")
        return n

    def replay(self, sc):
        ops = list(sc["ops"])
        self.nxt = ops

        def kind():
            return self.nxt.pop(0)
        self.next_kind = kind
        ch = self.make(sc["n"])
        while self.nxt:
            assert self.nxt.pop(0) == "iter"
            self.emit(k="iter")
            it = iter(ch)
            while True:
                # the behaviour breaks off where the next iteration starts
                if not self.step(it):
                    break
                if self.nxt and self.nxt[0] == "iter":
                    y = [e["k"] for e in self.ev[::-1]]
                    cnt = y[: y.index("iter")].count("yield")
                    if cnt < sc["n"]:
                        break
        self.tags.add("generated")
        return sc["n"]


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    scen = sys.argv[4] if len(sys.argv) > 4 else None
    D = Driver(out)
    import os
    os.environ["TQDM_DISABLE"] = "1"
    jobs = [json.loads(x) for x in open(scen)] if scen else [None] * count
    for j, sc in enumerate(jobs):
        if not D.more():
            break
        R = Run(random.Random(f"chain-{seed}-{j}"))
        R.n = sc["n"] if sc else 1
        try:
            with guard(30):
                R.replay(sc) if sc else R.random_run()
        except Exception as e:  # noqa
            if not (R.ev and R.ev[-1]["k"] == "raised" and not R.ev[-1]["planned"]):
                R.emit(k="raised", planned=0, exc=exc_name(e), detail=trace_of(e))
            D.failed += 1
        D.add(dict(n=R.n, ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
