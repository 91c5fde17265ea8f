"""Contiguity checks: python -m harness.contig MODE SEED COUNT OUT
MODE random: random graphs, plans, walks of flips.
MODE all:N:K:SHARD:OF  every graph with N nodes, contiguous plan, flip of one node."""
import copy, itertools, random, sys
from .base import *
from gerrychain import constraints as C
from gerrychain.constraints import contiguity as CT

RULE = copy.deepcopy(C.no_more_discontiguous)


class Run:
    def __init__(self, rng, n, E, k, tags=()):
        self.rng, self.n, self.E, self.k = rng, n, E, k
        self.L, self.DL = node_labels(rng, n), part_labels(rng, k)
        self.P = fresh_class()
        self.G = build(rng, n, E, self.L)
        self.ev, self.tags = [], set(tags)
        # the rule itself is shared by the whole process: copies that have seen nothing
        self.rules = {"r%d" % i: copy.deepcopy(RULE) for i in range(2)}

    def ep(self):
        return dict(n=self.n, E=[list(e) for e in self.E], k=self.k, ev=self.ev, tags=sorted(self.tags))

    def do(self, fn, **kw):
        try:
            with guard(20):
                r = fn()
            self.ev.append(dict(kw, exc="", **(r if isinstance(r, dict) else {})))
            return r
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def ask(self, k, fn):
        self.do(lambda: dict(ans=int(fn())), k=k)

    def plan(self, a):
        p = self.P(self.G, {self.L[v]: self.DL[d - 1] for v, d in enumerate(a)}, {})
        self.ev.append(dict(k="plan", a=a, exc=""))
        return p

    def flip(self, p, a, f):
        q = p.flip({self.L[v - 1]: self.DL[d - 1] for v, d in f.items()})
        self.ev.append(dict(k="flip", f=[[v, d] for v, d in f.items()], **{"from": a}, exc=""))
        return q, [f.get(v + 1, x) for v, x in enumerate(a)]

    def comps(self, p):
        idx = {x: i + 1 for i, x in enumerate(self.L)}
        c = CT.contiguous_components(p)
        return dict(val=[[[idx[x] for x in s] for s in c.get(d, [])] for d in self.DL])

    def asks(self, p, what=None):
        c = self.rng.random()
        self.ask("contiguous", lambda: C.contiguous(p))
        self.ask("bfs", lambda: C.contiguous_bfs(p))
        self.ask("single", lambda: C.single_flip_contiguous(p))
        if what == "few":
            return
        self.ask("count", lambda: CT.number_of_contiguous_parts(p))
        if c < 0.4:
            self.do(lambda: self.comps(p), k="comps")
        o = self.rng.choice(sorted(self.rules))
        self.do(lambda: dict(ans=int(self.rules[o](p))), k="rule", o=o)


def random_ep(rng):
    big = rng.random() < 0.06
    n, E = shape(rng, *((11, 25) if big else (1, 10)), connected=rng.random() < 0.8)
    k = rng.choice([x for x in ((2, 3, 5, 8) if big else (1, 2, 2, 3, 4)) if x <= n])
    R = Run(rng, n, E, k)
    whole = len(comps(E, range(1, n + 1))) == 1
    a = contiguous_asg(rng, n, E, k) if whole and rng.random() < 0.8 else rand_asg(rng, n, k)
    R.tags.add("contiguous-start" if whole else "disconnected-graph")
    good = lambda a: all(len(comps(E, [v + 1 for v in range(n) if a[v] == d])) == 1 for d in range(1, k + 1))
    nb = {v: [u for e in E for u in e if v in e and u != v] for v in range(1, n + 1)}
    try:
        p = R.plan(a)
        R.asks(p)
        for _ in range(rng.randint(2, 9)):
            c = rng.random()
            cuts = [(u, v) for x, y in E for u, v in ((x, y), (y, x)) if a[u - 1] != a[v - 1]]
            if c < 0.65 and cuts:
                u, v = rng.choice(cuts)
                f = {u: a[v - 1]}
                R.tags.add("adjacent-flip")
            elif c < 0.75:
                f = {v: rng.randint(1, k) for v in rng.sample(range(1, n + 1), rng.randint(1, min(n, 3)))}
                R.tags.add("multi-flip")
            elif c < 0.85:
                d = rng.randint(1, k)
                f = {v: rng.randint(1, k) for v in range(1, n + 1) if a[v - 1] == d}
                if not f:
                    continue
                R.tags.add("district-flip")
            elif c < 0.93 and cuts:
                u, v = rng.choice(cuts)
                f = {u: a[v - 1], v: a[u - 1]}
                R.tags.add("swap")
            else:
                b = contiguous_asg(rng, n, E, k) if whole else rand_asg(rng, n, k)
                f = {v: b[v - 1] for v in range(1, n + 1) if b[v - 1] != a[v - 1] or rng.random() < 0.3}
                if not f:
                    continue
                R.tags.add("new-plan")
            q, b = R.flip(p, a, f)
            R.asks(q)
            if rng.random() < 0.15:
                q.parent = None
                R.ev.append(dict(k="gone", exc=""))
                R.tags.add("parent-gone")
                if hasattr(q, "flips"):
                    R.asks(q)
            if good(b) or rng.random() < 0.2:
                p, a = q, b
    except Exception:  # noqa
        if not (R.ev and R.ev[-1]["exc"]):
            raise
        return R, False
    return R, True


def all_eps(D, n, k, shard, of, seed):
    AE = [(u, v) for u in range(1, n + 1) for v in range(u + 1, n + 1)]
    for i in range(shard, 2 ** len(AE), of):
        E = [e for j, e in enumerate(AE) if i >> j & 1]
        rng = random.Random(f"contig-all-{seed}-{n}-{k}-{i}")
        R = Run(rng, n, E, k, ["exhaustive"])
        try:
            for a in itertools.product(range(1, k + 1), repeat=n):
                a = list(a)
                if not all(len(comps(E, [v + 1 for v in range(n) if a[v] == d])) == 1 for d in range(1, k + 1)):
                    continue
                p = R.plan(a)
                for v in range(1, n + 1):
                    for d in range(1, k + 1):
                        if d != a[v - 1]:
                            q, b = R.flip(p, a, {v: d})
                            R.asks(q, "few")
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        if R.ev:
            D.add(R.ep())
        if not D.more():
            break


def main():
    mode, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=100.0 if count < 10000 else 900)
    if mode.startswith("all"):
        n, k, shard, of = map(int, mode.split(":")[1:])
        all_eps(D, n, k, shard, of, seed)
    else:
        for j in range(count):
            if not D.more():
                break
            R, ok = random_ep(random.Random(f"contig-{seed}-{j}"))
            D.failed += not ok
            D.add(R.ep())
    D.save()


if __name__ == "__main__":
    main()
