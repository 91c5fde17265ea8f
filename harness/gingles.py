"""Gingles scores: python -m harness.gingles SEED COUNT OUT"""
import random, sys, warnings
from fractions import Fraction
import numpy as np
from .base import *
from gerrychain.updaters import Tally
from gerrychain.optimization import Gingleator

NAMES = {"num": Gingleator.num_opportunity_dists, "partial": Gingleator.reward_partial_dist, "close": Gingleator.reward_next_highest_close,
         "maxover": Gingleator.penalize_maximum_over, "avgover": Gingleator.penalize_avg_over}


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()

    def do(self, fn, **kw):
        try:
            with guard(30):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    # -- the score functions on given shares --------------------------------------
    def given(self):
        rng = self.rng
        k = rng.randint(1, 6)
        den = rng.choice([8, 16, 16, 20, 40])
        t = (rng.choice([den // 2, den // 2, rng.randint(1, den - 1)]), den)
        mode = rng.randrange(5)
        pick = [lambda: rng.randint(0, den), lambda: min(den, max(0, t[0] + rng.randint(-2, 2))), lambda: rng.randint(t[0], den),
                lambda: rng.randint(0, t[0] - 1), lambda: rng.choice([0, t[0], den])][mode]
        sh = [(pick(), den) for _ in range(k)]
        n, E = shape(rng, k, max(k, 7))
        L, DL = node_labels(rng, n), part_labels(rng, k)
        a = rand_asg(rng, n, k)
        ty = rng.choice([float, np.float64])
        vals = {DL[d]: ty(sh[d][0] / den) for d in range(k)}
        keep = dict(vals)
        pops = [rng.randint(1, 6) for _ in range(n)]
        p = fresh_class()(build(rng, n, E, L, [{"m": rng.randint(0, pops[v]), "t": pops[v]} for v in range(n)]),
                          {L[v]: DL[a[v] - 1] for v in range(n)},
                          {"perc": lambda q: vals, "mino": Tally("m", alias="mino"), "TOTPOP": Tally("t", alias="TOTPOP")})
        # the population columns may be named as well: given shares are the shares
        more = rng.choice([{}, {}, dict(minority_pop_col="mino"), dict(minority_pop_col="mino", total_pop_col="TOTPOP"), dict(total_pop_col="none")])
        for name, fn in NAMES.items():
            if rng.random() < 0.5:
                f = lambda: dict(v=fix(fn(p, "perc", t[0] / t[1]), 100000))
            else:
                g = Gingleator(lambda q: q, lambda q: True, p, minority_perc_col="perc", threshold=t[0] / t[1], score_function=fn, **more)
                if "minority_pop_col" in more:
                    self.tags.add("both-columns")
                f = lambda: dict(v=fix(g.score(p), 100000))
            self.do(f, k="score", name=name, given=1, sh=[list(x) for x in sh], t=list(t))
        above = sum(x[0] >= t[0] for x in sh)
        self.tags |= {"all-above" if above == k else "none-above" if above == 0 else "some-above"}
        if any(x[0] == t[0] for x in sh):
            self.tags.add("at-threshold")

    # -- shares from population columns, along a history ---------------------------
    def columns(self):
        rng = self.rng
        n, E = shape(rng, 2, 7)
        k = rng.randint(1, min(4, n))
        L, DL = node_labels(rng, n), part_labels(rng, k)
        tot = [rng.randint(1, 6) for _ in range(n)]
        mn = [rng.randint(0, x) for x in tot]
        oth = [rng.randint(0, x) for x in tot]
        G = build(rng, n, E, L, [{"m": mn[v], "t": tot[v], "o": oth[v]} for v in range(n)])
        a = rand_asg(rng, n, k)
        tcol = rng.choice(["TOTPOP", "people"])
        t = rng.choice([(1, 2), (1, 2), (1, 3), (2, 5), (9, 20)])
        p = fresh_class()(G, {L[v]: DL[a[v] - 1] for v in range(n)}, {"mino": Tally("m", alias="mino"), tcol: Tally("t", alias=tcol), "other": Tally("o", alias="other")})
        pd = {x: i + 1 for i, x in enumerate(DL)}
        name = rng.choice(list(NAMES))
        kw = {} if t == (1, 2) and rng.random() < 0.5 else dict(threshold=t[0] / t[1])
        if name != "num" or rng.random() < 0.5:
            kw["score_function"] = NAMES[name]
        if tcol != "TOTPOP" or rng.random() < 0.3:
            kw["total_pop_col"] = tcol
        col = "_gingleator_auxiliary_helper_updater_min_perc_col"
        if rng.random() < 0.4:
            col = kw["min_perc_column_name"] = rng.choice(["share", "x"])
        two = rng.random() < 0.3
        asg = lambda q: [pd[q.assignment.mapping[x]] for x in L]

        def propose(q):
            b = asg(q)
            for _ in range(20):
                v, d = rng.randrange(n), rng.randint(1, k)
                c = list(b)
                c[v] = d
                if len(set(c)) == k:
                    return q.flip({L[v]: DL[d - 1]})
            return q.flip({})
        if rng.random() < 0.1:
            def f():
                try:
                    Gingleator(propose, lambda q: True, p)
                    return dict(err="none")
                except Exception as e:  # noqa
                    return dict(err=exc_name(e))
            self.do(f, k="refused")
        try:
            g = Gingleator(propose, lambda q: True, p, minority_pop_col="mino", **kw)
            if two:       # a second optimizer on the same plan, for another group
                g2 = Gingleator(propose, lambda q: True, p, minority_pop_col="other", total_pop_col=tcol, min_perc_column_name="second", threshold=t[0] / t[1], score_function=NAMES[name])
                self.tags.add("two-optimizers")
        except Exception as e:  # noqa
            self.ev.append(dict(k="make", exc=exc_name(e), detail=trace_of(e)))
            raise
        ln, b = rng.randint(1, 4), rng.randint(1, 3)
        seen, plans = [], []

        def f():
            for q in g.short_bursts(ln, b):
                seen.append(fix(g.score(q), 100000))
                plans.append(q)
            return dict(seen=seen, best=fix(g.best_score, 100000))
        self.do(f, k="run")
        for q in plans:
            a = asg(q)
            self.do(lambda: dict(got=[rat(q[col][x], 200) for x in DL]), k="shares", a=a, K=k, min=mn, tot=tot)
            self.do(lambda: dict(v=fix(g.score(q), 100000)), k="score", name=name, given=0, a=a, K=k, min=mn, tot=tot, t=list(t))
            if two:
                self.do(lambda: dict(v=fix(g2.score(q), 100000)), k="score", name=name, given=0, a=a, K=k, min=oth, tot=tot, t=list(t))
        self.tags.add("columns")


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    D = Driver(out)
    for j in range(count):
        if not D.more():
            break
        R = Run(random.Random(f"gingles-{seed}-{j}"))
        try:
            R.given() if j % 2 else R.columns()
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
