"""Diversity statistics and one-flip neighbourhoods: python -m harness.meta KIND SEED COUNT OUT"""
import random, sys
from .base import *
from gerrychain import MarkovChain
from gerrychain.accept import always_accept
from gerrychain.constraints import Validator, contiguous, single_flip_contiguous, no_vanishing_districts, UpperBound
from gerrychain.meta import collect_diversity_stats
from gerrychain.metagraph import all_cut_edge_flips, all_valid_flips, all_valid_states_one_flip_away, metagraph_degree


class Run:
    def __init__(self, rng, length=0):
        self.rng, self.ev, self.tags, self.length = rng, [], set(), length
        self.n, self.E = shape(rng, 11, 13) if length else shape(rng, 2, 7)
        n = self.n
        self.k = 3 if length else rng.randint(1, min(4, n))
        self.L, self.DL = node_labels(rng, n), part_labels(rng, self.k)
        self.contig = rng.random() < (0 if length else 0.6)
        self.a = contiguous_asg(rng, n, self.E, self.k) if self.contig else rand_asg(rng, n, self.k)
        self.p = fresh_class()(build(rng, n, self.E, self.L), self.asg_dict(self.a))
        self.pd = {x: i + 1 for i, x in enumerate(self.DL)}

    def asg_dict(self, a):
        return {self.L[v]: self.DL[a[v] - 1] for v in range(self.n)}

    def asg(self, q):
        return [self.pd[q.assignment.mapping[x]] for x in self.L]

    def do(self, fn, **kw):
        try:
            with guard(20):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def plans(self, m):
        """A sequence of plans with returns, renamings and repetitions."""
        rng, p, out = self.rng, self.p, [self.p]
        for _ in range(m - 1):
            c = rng.random()
            b = self.asg(p)
            if c < 0.15:
                q = rng.choice(out)
            elif c < 0.35 and self.k > 1:        # districts renamed
                s = list(range(1, self.k + 1))
                rng.shuffle(s)
                q = p.flip({self.L[v]: self.DL[s[b[v] - 1] - 1] for v in range(self.n)})
                self.tags.add("renamed")
            elif c < 0.5:                        # a plan built anew
                r = rng.choice(out)
                q = type(p)(p.graph, self.asg_dict(self.asg(r)))
                self.tags.add("rebuilt")
            else:
                x = list(b)
                for _ in range(10):
                    v, d = rng.randrange(self.n), rng.randint(1, self.k)
                    y = list(x)
                    y[v] = d
                    if len(set(y)) == self.k and (not self.contig or all(len(comps(self.E, [i + 1 for i in range(self.n) if y[i] == f])) == 1 for f in range(1, self.k + 1))):
                        x = y
                        break
                q = p.flip({self.L[v]: self.DL[x[v] - 1] for v in range(self.n) if x[v] != b[v]})
            out.append(q)
            p = q
        return out

    def diversity(self):
        rng = self.rng
        runs = [self.plans(self.length or rng.choice([1, 3, 8, 20])) for _ in range(rng.choice([1, 1, 2]))]
        for ps in runs:
            base = len(self.ev)
            src = rng.choice([lambda: list(ps), lambda: iter(ps), lambda: (x for x in ps), lambda: self.chain(ps)])()
            g = iter(collect_diversity_stats(src))
            got = 0
            for q in ps:
                def f():
                    r, s = next(g)
                    return dict(a=self.asg(r), same=int(r is q), steps=s.steps_taken, plans=s.unique_plans, dists=s.unique_districts)
                self.do(f, k="stat", base=base)
                got += 1

            def f():
                return dict(n=got + len(list(g)), want=len(ps))
            self.do(f, k="done")
        self.tags |= {"long"} if self.length else set()
        self.tags.add("contiguous" if self.contig else "discontiguous")

    def chain(self, ps):
        it = iter(ps[1:])
        self.tags.add("chain")
        return MarkovChain(lambda p: next(it), lambda p: True, always_accept, ps[0], len(ps))

    def near(self):
        rng = self.rng
        for q in self.plans(rng.randint(1, 4)):
            salt = rng.randrange(1000)
            form = rng.randrange(6)
            pred = lambda p: (hash((salt, tuple(self.asg(p)))) % 3) > 0
            pred2 = lambda p: sum(self.asg(p)) % 2 == 0 or salt % 2 == 0
            whole = lambda p: all(len(comps(self.E, [i + 1 for i in range(self.n) if self.asg(p)[i] == d])) == 1 for d in range(1, self.k + 1))
            if form == 0:
                cs, truth = pred, pred
            elif form == 1:
                cs, truth = [pred, pred2], lambda p: pred(p) and pred2(p)
            elif form == 2:
                cs, truth = Validator([pred2, pred]), lambda p: pred(p) and pred2(p)
            elif form == 3:
                cs, truth = [], lambda p: True
            elif form == 4 and self.contig:
                cs, truth = [contiguous, no_vanishing_districts], whole
            elif form == 5 and self.contig:
                cs, truth = rng.choice([single_flip_contiguous, [no_vanishing_districts, single_flip_contiguous]]), whole
            else:
                cs, truth = (x for x in ()), lambda p: True
                cs = [UpperBound(lambda p: self.asg(p)[0], self.k - 1)]
                truth = lambda p: self.asg(p)[0] <= self.k - 1
            b = self.asg(q)
            valid = []
            for v in range(self.n):
                for d in range(1, self.k + 1):
                    if d != b[v]:
                        c = list(b)
                        c[v] = d
                        if truth(type(q)(q.graph, self.asg_dict(c))):
                            valid.append([v + 1, d])
            one = lambda f: [[self.L.index(x) + 1, self.pd[y]] for x, y in f.items()]

            # several constraints may also come as an iterator, used up in one call
            wrap = rng.choice([lambda: cs, lambda: iter(cs)]) if isinstance(cs, list) else lambda: cs

            def f():
                fl = [one(x) for x in all_cut_edge_flips(q)]
                vf = [one(x) for x in all_valid_flips(q, wrap())]
                st = [self.asg(x) for x in all_valid_states_one_flip_away(q, wrap())]
                return dict(flips=[x[0] if len(x) == 1 else [0, 0] for x in fl], vflips=[x[0] if len(x) == 1 else [0, 0] for x in vf], states=st,
                            degree=metagraph_degree(q, wrap()), kept=int(self.asg(q) == b))
            self.do(f, k="near", a=b, valid=valid)
            self.tags.add("near-form-%d" % form)


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out)
    for j in range(count):
        if not D.more():
            break
        # one long run, with thousands of different districts
        R = Run(random.Random(f"meta-{kind}-{seed}-{j}"), 2600 if kind == "diversity" and j == 1 else 0)
        try:
            getattr(R, kind)()
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(n=R.n, k=R.k, E=[list(e) for e in R.E], ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
