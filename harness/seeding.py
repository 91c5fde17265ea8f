"""Seed plans: python -m harness.seeding KIND SEED COUNT OUT      KIND: parts factors"""
import random, sys
from fractions import Fraction
from functools import partial
import networkx as nx
from .base import *
from gerrychain.updaters import Tally
from .trees import pops, EPS
from gerrychain import tree as T, Partition, GeographicPartition

ERRORS = ["RuntimeError", "BalanceError", "PopulationBalanceError"]


def snapshot(G):
    """Everything in the graph but the scratch weights of the spanning trees."""
    strip = lambda d: tuple(sorted((k, repr(v)) for k, v in d.items() if k != "random_weight"))
    return (tuple((x, strip(d)) for x, d in sorted(G.nodes(data=True), key=lambda y: repr(y[0]))),
            tuple(sorted((repr(sorted((repr(u), repr(v)))), strip(d)) for u, v, d in G.edges(data=True))))


class Run:
    def __init__(self, rng, big):
        self.rng, self.ev, self.tags = rng, [], set()
        self.n, self.E = shape(rng, 13, 24) if rng.random() < 0.06 else shape(rng, 2, 12 if big else 8)
        self.line = 0
        if rng.random() < 0.15:       # equal nodes on a line or a ring: every bite of the right size leaves a line
            self.line = rng.choice([2, 3, 3, 4, 4, 5, 6, 6, 8, 9, 10, 12])
            self.m = rng.randint(1, 4 if self.line < 6 else 3 if self.line < 10 else 2)
            self.n = self.line * self.m
            x = list(range(1, self.n + 1))
            rng.shuffle(x)
            ring = [(x[i - 1], x[i]) for i in range(int(not (self.n > 2 and rng.random() < 0.5)), self.n)]
            self.E = sorted(tuple(sorted(e)) for e in ring)
            self.tags.add("line" if len(ring) < self.n else "ring")
        n = self.n
        self.L = node_labels(rng, n)
        c = rng.randrange(4)
        self.P = [rng.choice([1, 1, 2, 5])] * n if self.line else [1] * n if c == 0 else [rng.randint(1, 3) for _ in range(n)] if c < 3 else [max(0.25, x) for x in pops(rng, n)]
        self.G = build(rng, n, self.E, self.L, [{"pop": self.P[v], "boundary_node": False, "area": 1} for v in range(n)],
                       {e: {"w": e[0], "shared_perim": 1} for e in self.E})

    def do(self, fn, secs=60, **kw):
        try:
            with guard(secs):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def method(self, attempts, kinds=("tree", "random", "uniform", "contraction")):
        m = self.rng.choice(kinds)
        self.tags.add("method-" + m)
        if m == "random":
            return partial(T.bipartition_tree_random, max_attempts=attempts)
        opts = dict(max_attempts=attempts)
        if self.rng.random() < 0.5:
            opts["warn_attempts"] = self.rng.choice([1, 2, 3])
        if m == "uniform":
            opts["spanning_tree_fn"] = T.uniform_spanning_tree
        if m == "contraction":
            opts["balance_edge_fn"] = T.find_balanced_edge_cuts_contraction
        return partial(T.bipartition_tree, **opts)

    def parts(self):
        rng = self.rng
        n, E, L, P, G = self.n, self.E, self.L, self.P, self.G
        k = rng.choice([x for x in ((2, 2, 3, 3, 4, 4, 5, 6) if n <= 12 else (2, 4, 6, 8, 9, 12)) if x <= n])
        total = Fraction(sum(P))
        e16 = rng.choice([1, 2, 4, 8, 8, 8, 12, 15] + ([0] if len(set(P)) == 1 else []))
        what = rng.choice(["tree", "tree", "seed", "seed", "random", "chunks"])
        if what == "tree" and k == 2 and not self.line and rng.random() < 0.4:
            what = "two"
        if self.line:
            k = self.line
            e16 = rng.choice([x for x in (0, 1, 2, 4, 8, 12, 15) if x * self.m < 16])
            wide = [x for x in range(1, 16) if x * self.m > 16 and x * self.m % 16]
            if k > 2 and wide and rng.random() < 0.4:     # more or less may be bitten off: what is owed has to be paid back
                e16, what = rng.choice(wide), "tree"
                self.tags.add("debts")
        if what == "random" or self.line:
            t = total / k
        else:
            t = Fraction(max(1, math.floor(4 * total / k)), 4) if rng.random() < 0.8 else Fraction(rng.randint(1, max(1, int(total))))
        if what == "seed" and not self.line and rng.random() < 0.05:
            k = 1
        attempts = 800 if k == 2 and n <= 7 else 60
        sure = 2 if self.line else int(attempts == 800)
        # the contraction method does not support one-sided cuts
        kinds = ("tree", "random", "uniform", "contraction") if k == 2 and not (self.line and what == "chunks") else ("tree", "random", "uniform")
        m = self.method(attempts, kinds)
        DL = list(range(k)) if what == "random" else part_labels(rng, k)
        pd = {x: i + 1 for i, x in enumerate(DL)}
        before = snapshot(G)
        tf = float(t) if t.denominator > 1 or rng.random() < 0.3 else int(t)
        tn, td = (4 * t).numerator, (4 * t).denominator
        rep = rng.choice([1, 1, 2])
        self.tags |= {what, "k=%d" % k}
        if what == "chunks":
            c = rng.choice([x for x in range(2, k + 1) if k % x == 0])
            if rng.random() < 0.5:
                m = partial(m, one_sided_cut=True)
            else:
                m = partial(T.bipartition_tree_random, max_attempts=attempts, one_sided_cut=True)

            def f():
                random.seed(rng.randrange(10**9))
                try:
                    r = T.get_seed_chunks(G, c, k, tf, "pop", e16 / 16, node_repeats=rep, method=m)
                except (RuntimeError, T.BalanceError, T.PopulationBalanceError) as e:
                    return dict(res=exc_name(e), chunks=[])
                return dict(res="plan", chunks=[[L.index(x) + 1 for x in ch] for ch in r])
            self.do(f, k0="chunks", c=c, m=k // c, tn=tn, td=td, eps=e16, allowed=ERRORS, sure=sure)
            self.tags.add("chunks:" + self.ev[-1]["res"])
            return
        kw, nn, ceil = {}, 0, 0
        first, asked = [], []
        if what == "seed":
            r = rng.random()
            if r < 0.35:
                nn = kw["n"] = rng.randint(2, max(2, k))
            elif r < 0.7:
                ceil = kw["ceil"] = rng.randint(2, max(2, k + 1))
            m0 = m

            def m(graph, **a):       # noqa
                if not first:
                    first.append((frozenset(graph.nodes), a["pop_target"]))
                asked.append((sum(G.nodes[x]["pop"] for x in graph.nodes), a["pop_target"]))
                return m0(graph, **a)
        parts = DL if rng.random() < 0.5 else tuple(DL)

        def f():
            random.seed(rng.randrange(10**9))
            try:
                if what == "two":
                    r = T.epsilon_tree_bipartition(G, parts, tf, "pop", e16 / 16, node_repeats=rep, method=m)
                elif what == "tree":
                    r = T.recursive_tree_part(G, parts, tf, "pop", e16 / 16, node_repeats=rep, method=m)
                elif what == "seed":
                    r = T.recursive_seed_part(G, parts, tf, "pop", e16 / 16, method=m, node_repeats=rep, **kw)
                else:
                    cls = fresh_class()
                    pm = rng.choice([partial(T.recursive_tree_part, method=m), partial(T.recursive_seed_part, method=m)])
                    opts = rng.choice([{}, dict(use_default_updaters=True), dict(use_default_updaters=False)])
                    ups = rng.choice([None, {"people": Tally("pop", alias="people")}])
                    if ups:
                        opts["updaters"] = ups
                    r = cls.from_random_assignment(G, k, e16 / 16, "pop", method=pm, **opts)
                    if set(r.updaters) != set(ups or {}) | ({"cut_edges"} if opts.get("use_default_updaters", True) else set()):
                        raise AssertionError("not the updaters that were asked for")
                    if ups and any(r["people"][d] != sum(P[L.index(x)] for x in r.parts[d]) for d in range(k)):
                        raise AssertionError("not the populations of the districts")
                    r = {x: r.assignment.mapping[x] for x in r.graph.nodes}
            except (RuntimeError, T.BalanceError, T.PopulationBalanceError) as e:
                return dict(res=exc_name(e), b=[], kept=1, extra=0)
            return dict(res="plan", b=[pd.get(r[x], 99) if x in r else 98 for x in L], kept=int(snapshot(G) == before), extra=int(any(x not in G for x in r)))
        self.do(f, k0="part", k=k, tn=tn, td=td, eps=e16, sure=sure, free=int(k == 1), what=what,
                # what was cut off so far never keeps the rest from being balanced
                allowed=ERRORS[:2] if what in ("tree", "two") else ERRORS)
        self.tags.add(what + ":" + self.ev[-1]["res"])
        if asked and self.line and self.ev[-1]["res"] == "plan":
            share = self.P[0] * self.m
            self.do(lambda: dict(ways=sorted({(enc(x / share, 1), enc(t / share, 1)) for x, t in asked})), k0="ways", k=k, n=nn, ceil=ceil)
            self.tags.add("ways")
        if first and first[0][0] == frozenset(G.nodes):
            x = rat(4 * first[0][1], 5000)
            self.do(lambda: dict(fn=x[0], fd=x[1]), k0="first", k=k, n=nn, ceil=ceil, tn=tn, td=td)

    def factors(self):
        rng = self.rng
        for _ in range(40):
            n = rng.choice([1, 2, 3, 4, 8, 9, 12, 13, 15, 25, 27, 30, 35, 49, 50, 64, 77, 97, rng.randint(1, 150)])
            c = rng.choice([1, 2, 3, 4, 5, 7, n, n - 1, n + 1, rng.randint(1, n + 2)])
            self.do(lambda: dict(got=T.get_max_prime_factor_less_than(n, c) or 0), k0="factor", num=n, ceil=c)


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=90.0 if count < 3000 else 1200)
    for j in range(count):
        if not D.more():
            break
        rng = random.Random(f"seeding-{kind}-{seed}-{j}")
        R = Run(rng, rng.random() < 0.4)
        try:
            getattr(R, kind)()
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(n=R.n, E=[list(e) for e in R.E], pop=[enc(x) for x in R.P], ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
