"""Balanced cuts, bipartitions and spanning trees:
python -m harness.trees KIND SEED COUNT OUT     KIND: cuts allcuts:N:SHARD:OF split random uniform count choice"""
import itertools, math, random, sys
from fractions import Fraction
from functools import partial
from .base import *
from . import rng as R_
from gerrychain import Graph, tree as T
from gerrychain.updaters import num_spanning_trees

METHODS = dict(memoization=T.find_balanced_edge_cuts_memoization, contraction=T.find_balanced_edge_cuts_contraction)


def rand_tree(rng, n):
    c = rng.randrange(6)
    if c == 0:
        E = [(i, i + 1) for i in range(1, n)]
    elif c == 1:
        E = [(1, i) for i in range(2, n + 1)]
    elif c == 2:
        E = [(i, max(1, i - rng.randint(1, 2))) for i in range(2, n + 1)]
    else:
        E = [(i, rng.randint(1, i - 1)) for i in range(2, n + 1)]
    p = list(range(1, n + 1))
    rng.shuffle(p)
    return sorted(tuple(sorted((p[u - 1], p[v - 1]))) for u, v in E)


def pops(rng, n):
    c = rng.randrange(5)
    if c == 0:
        return [1] * n
    if c == 1:
        return [rng.randint(0, 3) for _ in range(n)]
    if c == 2:
        return [rng.choice([0.25, 0.5, 1, 2.75]) for _ in range(n)]
    if c == 3:
        return [rng.randint(1, 40) for _ in range(n)]
    return [rng.choice([1, 1, 1, 10]) for _ in range(n)]


def target(rng, P):
    s = sum(P)
    c = rng.randrange(5)
    if c < 3:
        t = math.floor(s * 2) / 4          # half of the population
    elif c == 3:
        t = max(0.25, math.floor(4 * s / rng.choice([3, 4, 5])) / 4)
    else:
        t = rng.randint(1, max(1, int(s)))
    if t <= 0:
        t = 1
    return int(t) if t == int(t) and rng.random() < 0.8 else t


EPS = [0, 1, 1, 2, 2, 4, 4, 8, 12, 15]


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()

    def do(self, fn, **kw):
        try:
            with guard(40):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    # -- C10 ------------------------------------------------------------------
    def one_cuts(self, n, E, P, t, e16, name, one, pick):
        rng = self.rng
        L = node_labels(rng, n)
        idx = {x: i + 1 for i, x in enumerate(L)}
        import networkx as nx
        G = build(rng, n, E, L, cls=rng.choice([nx.Graph, Graph]))
        if rng.random() < 0.5:
            for x in G.edges:
                G.edges[x]["random_weight"] = rng.random()

        def f():
            h = T.PopulatedGraph(G, {L[v]: P[v] for v in range(n)}, t, e16 / 16)
            cuts = METHODS[name](h, one_sided_cut=one, choice=lambda xs: xs[pick % len(xs)]) if one or rng.random() < 0.5 else \
                METHODS[name](h, choice=lambda xs: xs[pick % len(xs)])
            return dict(cuts=[[sorted(idx[x] for x in c.edge), sorted(idx[x] for x in c.subset)] for c in cuts])
        self.tags.add(name + ("-one-sided" if one else ""))
        self.do(f, k="cuts", T=[list(x) for x in E], pop=[enc(x) for x in P], t=enc(t), eps=e16, m=name, one=int(one))

    def cuts(self):
        rng = self.rng
        for _ in range(6):
            n = rng.randint(2, 12) if rng.random() < 0.95 else rng.randint(13, 40)
            E, P = rand_tree(rng, n), pops(rng, n)
            t, e16 = target(rng, P), rng.choice(EPS)
            for name, one in (("memoization", False), ("contraction", False), ("memoization", True), ("contraction", True)):
                self.one_cuts(n, E, P, t, e16, name, one, rng.randrange(n))

    def split(self):
        rng = self.rng
        n, E = shape(rng, 2, 7) if rng.random() < 0.94 else shape(rng, 10, 24)
        L, P = node_labels(rng, n), pops(rng, n)
        idx = {x: i + 1 for i, x in enumerate(L)}
        G = build(rng, n, E, L, [{"pop": P[v]} for v in range(n)])
        for _ in range(3):
            one = rng.random() < 0.35
            t, e16 = target(rng, P), rng.choice(EPS)
            fn = rng.choice(["bipartition_tree", "bipartition_tree_random"])
            m = rng.choice(["memoization", "memoization", "contraction"])
            tries = [0]

            def counted(h, one_sided_cut=False, choice=random.choice):
                tries[0] += 1
                return METHODS[m](h, one_sided_cut=one_sided_cut, choice=choice)
            mx = rng.choice([1, 2, 5, 1000])
            rep = rng.choice([1, 1, 2])
            kw = dict(balance_edge_fn=counted, max_attempts=mx, node_repeats=rep, one_sided_cut=one)
            if rng.random() < 0.4:
                kw["spanning_tree_fn"] = T.uniform_spanning_tree
            given, resel, once = [], False, False
            if rng.random() < 0.4:
                K = rand_connected_tree(rng, n, E)
                given = K
                ST = build(rng, n, K, L)
                kw["spanning_tree"] = ST
            if fn == "bipartition_tree":
                resel = rng.random() < 0.3
                if resel:
                    kw["allow_pair_reselection"] = True
                if rng.random() < 0.6:      # before the attempts run out
                    kw["warn_attempts"] = rng.choice([1, 1, 2, 3])
            else:
                once = rng.random() < 0.3
                if once:
                    kw["repeat_until_valid"] = False
                if m == "contraction" and one:
                    one = kw["one_sided_cut"] = False

            def f():
                try:
                    r = getattr(T, fn)(G, pop_col="pop", pop_target=t, epsilon=e16 / 16, **kw)
                except (RuntimeError, T.ReselectException) as e:
                    return dict(res=exc_name(e), S=[], tries=tries[0])
                if r is None:
                    return dict(res="None", S=[], tries=tries[0])
                return dict(res="set", S=sorted(idx[x] for x in r), tries=tries[0])
            random.seed(rng.randrange(10**9))
            sure = mx == 1000 and n <= 7 and not once and not (one and m == "contraction")
            self.tags |= {fn, "one-sided" if one else "two-sided", m}
            self.do(f, k="split", E=[list(x) for x in E], pop=[enc(x) for x in P], t=enc(t), eps=e16, one=int(one),
                    max=mx, sure=int(sure), once=int(once), resel=int(resel), T=[list(x) for x in given],
                    m=m + ("1" if one else ""))
            self.tags.add("split:" + self.ev[-1]["res"])

    # -- C11 ------------------------------------------------------------------
    def random(self):
        rng = self.rng
        for _ in range(4):
            n, E = shape(rng, 2, 9) if rng.random() < 0.95 else shape(rng, 12, 24)
            L = node_labels(rng, n)
            idx = {x: i + 1 for i, x in enumerate(L)}
            nr = rng.choice([0, 0, 1, 1, 2, 3])
            steps = rng.random() < 0.6
            sur = [rng.choice([4, 8, 20, 0] if steps else [1, 2, 3, 4, 6, -2]) for _ in range(nr)]
            regs = [[rng.choice([0, 1, 2, 3] if rng.random() < 0.3 else [1, 2, 3]) for _ in range(n)] for _ in range(nr)]
            names = rng.choice([[None, "a", "b", "c"], [None, 1, 2, 3], [None, "", 0, "x"]])
            G = build(rng, n, E, L, [{f"r{j}": names[regs[j][v]] for j in range(nr)} for v in range(n)])
            self.tags.add("regions=%d" % nr)
            arg = {f"r{j}": (sur[j] / 4 if sur[j] % 4 else sur[j] // 4) for j in range(nr)}
            steps = all(s % 4 == 0 and s >= 0 for s in sur)

            def f():
                random.seed(rng.randrange(10**9))
                st = T.random_spanning_tree(G, region_surcharge=arg) if nr or rng.random() < 0.5 else T.random_spanning_tree(G)
                if set(st.nodes) != set(L):
                    raise ValueError("tree has other nodes")
                w = []
                if all("random_weight" in G.edges[x] for x in G.edges):
                    ws = [G.edges[L[u - 1], L[v - 1]]["random_weight"] for u, v in E]
                    order = sorted(set(ws))
                    w = [[order.index(x), math.floor(x * 10**6)] for x in ws]
                return dict(T=sorted(sorted([idx[u], idx[v]]) for u, v in st.edges), w=w)
            self.do(f, k="random", n=n, E=[list(x) for x in E], regions=regs, sur=sur, steps=int(steps))
        # distribution over the orders of the weights
        n, E = shape(rng, 2, 4)
        if len(E) > 5:
            return
        L = node_labels(rng, n)
        idx = {x: i + 1 for i, x in enumerate(L)}
        G = build(rng, n, E, L)

        def once():
            vals = []

            def unit(script):
                r = script.below(len(vals) + 1)
                lo = vals[r - 1] if r > 0 else 0.0
                hi = vals[r] if r < len(vals) else 1.0
                x = (lo + hi) / 2
                vals.insert(r, x)
                return x
            once.unit = unit
            return tuple(sorted(tuple(sorted((idx[u], idx[v]))) for u, v in T.random_spanning_tree(G).edges))

        def f():
            D = R_.explore(once, limit=800, floats=lambda s: once.unit(s))
            return dict(outs=[[[list(x) for x in o], p.numerator, p.denominator] for o, p in sorted(D.out.items())])
        try:
            self.do(f, k="kruskal", n=n, E=[list(x) for x in E])
        except R_.TooMany:
            self.ev.pop()

    def uniform(self):
        rng = self.rng
        n, E = shape(rng, 2, 4) if rng.random() < 0.8 else (5, rand_connected(rng, 5, rng.randint(0, 2)))
        L = node_labels(rng, n)
        idx = {x: i + 1 for i, x in enumerate(L)}
        G = build(rng, n, E, L)

        def once():
            t = T.uniform_spanning_tree(G)
            if set(t.nodes) != set(L):
                raise ValueError("tree has other nodes")
            return tuple(sorted(tuple(sorted((idx[u], idx[v]))) for u, v in t.edges))

        def f():
            D, cut = None, Fraction(1, 3000)
            while D is None:
                try:
                    D = R_.explore(once, limit=12000, cutoff=cut)
                except R_.TooMany:
                    cut *= 3
            if D.floats:
                D = R_.sample(once, 3000, 1)
                D.left = Fraction(5, 100)
                D.out = {o: max(Fraction(0), p - D.left / 2) for o, p in D.out.items()}
            M = 10**6
            return dict(outs=[[[list(x) for x in o], math.floor(p * M), math.ceil((p + D.left) * M)] for o, p in sorted(D.out.items())],
                        left=math.ceil(D.left * M))
        self.do(f, k="uniform", n=n, E=[list(x) for x in E])
        for _ in range(3):
            n, E = shape(rng, 2, 12) if rng.random() < 0.9 else shape(rng, 13, 36)
            L = node_labels(rng, n)
            idx = {x: i + 1 for i, x in enumerate(L)}
            G = build(rng, n, E, L)
            random.seed(rng.randrange(10**9))
            self.do(lambda: dict(T=sorted(sorted((idx[u], idx[v])) for u, v in T.uniform_spanning_tree(G).edges)),
                    k="tree", n=n, E=[list(x) for x in E])

    def count(self):
        rng = self.rng
        n, E = shape(rng, 1, 7)
        k = rng.choice([x for x in (1, 2, 3) if x <= n])
        L, DL = node_labels(rng, n), part_labels(rng, k)
        a = contiguous_asg(rng, n, E, k)
        p = fresh_class()(build(rng, n, E, L), {L[v]: DL[d - 1] for v, d in enumerate(a)}, {"t": num_spanning_trees})
        nice = lambda a: all(len(comps(E, [v + 1 for v in range(n) if a[v] == d])) == 1 for d in range(1, k + 1))
        for _ in range(4):
            def f():
                r = p["t"]
                out = []
                for d in DL:
                    x = float(r[d])
                    out.append(int(round(x)) if abs(x - round(x)) < 1e-6 * max(1, abs(x)) else -1)
                return dict(val=out)
            self.do(f, k="count", E=[list(x) for x in E], a=a)
            for _ in range(10):
                v, d = rng.randint(1, n), rng.randint(1, k)
                b = list(a)
                b[v - 1] = d
                if nice(b):
                    p, a = p.flip({L[v - 1]: DL[d - 1]}), b
                    break


    # -- C24 ------------------------------------------------------------------
    def choice(self):
        rng = self.rng
        big = rng.random() < 0.1
        n, E = shape(rng, 11, 24) if big else shape(rng, 3, 10)
        L, P = node_labels(rng, n), pops(rng, n) if rng.random() < 0.4 else [1] * n
        idx = {x: i + 1 for i, x in enumerate(L)}
        nr = rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        regs = [[rng.choice([0, 1, 2] if rng.random() < 0.3 else [1, 2, 3]) for _ in range(n)] for _ in range(nr)]
        for j in range(nr):
            if rng.random() < 0.5:      # regions of neighbours
                for _ in range(2):
                    for u, v in E:
                        if rng.random() < 0.4:
                            regs[j][v - 1] = regs[j][u - 1]
        names = rng.choice([[None, "a", "b", "c"], [None, 1, 2, 3], [None, "", 0, "x"]])
        G = build(rng, n, E, L, [dict({"r%d" % j: names[regs[j][v]] for j in range(nr)}, pop=P[v]) for v in range(n)])
        last = {}

        def taken(h, cuts):
            """What there was to choose from."""
            ws = sorted({c.weight for c in cuts} | {h.graph.edges[c.edge].get("random_weight", c.weight) for c in cuts})
            return dict(N=sorted(idx[x] for x in h.graph.nodes), T=sorted(sorted((idx[u], idx[v])) for u, v in h.graph.edges),
                        cuts=[[sorted(idx[x] for x in c.edge), ws.index(c.weight),
                               ws.index(h.graph.edges[c.edge]["random_weight"]) if "random_weight" in h.graph.edges[c.edge] else -1,
                               sorted(idx[x] for x in c.subset)] for c in cuts])
        for _ in range(3):
            m = rng.choice(["memoization", "memoization", "contraction"])

            def seen(h, one_sided_cut=False, choice=random.choice):
                cuts = METHODS[m](h, one_sided_cut=one_sided_cut, choice=choice)
                if cuts:
                    last.update(taken(h, cuts))
                return cuts
            step = rng.random() < 0.6
            sur = [rng.choice([1, 2, 3, 4] if step else [0, 2, 5, 8, 20]) for _ in range(nr)]
            if rng.random() < 0.15:
                sur = sorted(sur, reverse=True)
            has = rng.random() < 0.9
            arg = {"r%d" % j: sur[j] / 4 for j in range(nr)} if has else None
            if has and rng.random() < 0.1:
                arg, sur_ = {}, []
            else:
                sur_ = sur if has else []
            regs_ = regs[: len(sur_)]
            order = list(range(len(sur_)))
            if arg and rng.random() < 0.5:
                rng.shuffle(order)
                arg = {"r%d" % j: arg["r%d" % j] for j in order}
            e16 = rng.choice([8, 12, 12, 14, 15])
            total = sum(P)
            t = max(0.25, math.floor(total * 2) / 4)
            way = rng.choice(["direct", "direct", "recom"])
            random.seed(rng.randrange(10**9))
            last.clear()
            if way == "recom":
                from gerrychain.proposals import recom
                k = rng.choice([2, 2, 3])
                if k > n:
                    continue
                a = contiguous_asg(rng, n, E, k)
                DL = part_labels(rng, k, comparable=True)
                p = fresh_class()(G, {L[v]: DL[a[v] - 1] for v in range(n)}, {})
                t = max(0.25, math.floor(total * 4 / k) / 4)

                def f():
                    meth = partial(T.bipartition_tree, balance_edge_fn=seen, max_attempts=200)
                    q = recom(p, pop_col="pop", pop_target=t, epsilon=e16 / 16, region_surcharge=arg, method=meth)
                    N = set(last["N"])
                    part = next(d for d in DL if {idx[x] for x in q.parts[d]} & N)
                    return dict(last, S=sorted(idx[x] for x in q.parts[part]))
            else:
                # a tree of the user, with weights of any size and sign
                own = rng.choice([None, None, None, [0, 1], [-1, 0, 0.5], [0, 0.0, -2, 3], list(range(40))])

                def weighed(g, region_surcharge=None):
                    h = T.random_spanning_tree(g, region_surcharge)
                    for x in h.edges:
                        h.edges[x]["random_weight"] = rng.choice(own)
                    return h
                kw = {} if own is None else dict(spanning_tree_fn=weighed)
                if rng.random() < 0.35:
                    kw["one_sided_cut"] = True
                    t = max(0.25, math.floor(total * rng.choice([1, 2, 2.5])) / 4)
                    self.tags.add("choice-one-sided")

                def f():
                    r = T.bipartition_tree(G, "pop", t, e16 / 16, region_surcharge=arg, balance_edge_fn=seen, max_attempts=200,
                                           node_repeats=rng.choice([1, 2]), **kw)
                    return dict(last, S=sorted(idx[x] for x in r))
            try:
                self.do(f, k="choice", regions=regs_, sur=sur_, has=int(has), E=[list(x) for x in E],
                        drawn=int(has and (way == "recom" or own is None)))
            except RuntimeError:     # no balanced cut: another matter
                self.ev.pop()
                continue
            self.tags |= {"choice-" + way, "regions=%d" % len(sur_), "cuts=%d" % min(4, len(self.ev[-1]["cuts"]))}
        # without regions, all balanced cuts of a given tree are equally likely
        n = rng.randint(2, 8)
        K, P = rand_tree(rng, n), pops(rng, n)
        L = node_labels(rng, n)
        idx = {x: i + 1 for i, x in enumerate(L)}
        t, e16 = max(0.25, math.floor(sum(P) * 2) / 4), rng.choice([8, 12, 15])
        side = {}
        for e in K:
            A = next(frozenset(c) for c in comps([x for x in K if x != e], range(1, n + 1)) if e[0] in c)
            side[A] = side[frozenset(range(1, n + 1)) - A] = e
        G = build(rng, n, K, L, [{"pop": P[v]} for v in range(n)])
        for x in G.edges:
            G.edges[x]["random_weight"] = rng.random()
        fn = rng.choice([T.bipartition_tree, T.bipartition_tree_random])
        m = rng.choice(["memoization", "contraction"])

        def once():
            r = fn(G, "pop", t, e16 / 16, spanning_tree=G, max_attempts=1, balance_edge_fn=METHODS[m])
            return side.get(frozenset(idx[x] for x in r), (0, 0))

        def g():
            D = R_.explore(once, limit=2000, floats=lambda s: 0.5)
            return dict(outs=[[list(o), p.numerator, p.denominator] for o, p in sorted(D.out.items())])
        try:
            self.do(g, k="odds", T=[list(x) for x in K], pop=[enc(x) for x in P], t=enc(t), eps=e16)
            self.tags.add("odds-" + fn.__name__)
        except (RuntimeError, R_.TooMany):
            self.ev.pop()
        # a rule of the user's own
        box = {}

        def own(cuts):
            c = cuts[rng.randrange(len(cuts))]
            box["want"] = sorted(idx[x] for x in c.subset)
            return c
        sur = rng.choice([None, {"pop": 1}])
        random.seed(rng.randrange(10**9))
        try:
            self.do(lambda: dict(S=sorted(idx[x] for x in T.bipartition_tree(G, "pop", t, e16 / 16, cut_choice=own, region_surcharge=sur, max_attempts=1)),
                                 N=list(range(1, n + 1)), want=box["want"]), k="own")
        except RuntimeError:
            self.ev.pop()


def rand_connected_tree(rng, n, E):
    E = list(E)
    rng.shuffle(E)
    comp = list(range(n + 1))
    out = []
    for u, v in E:
        if comp[u] != comp[v]:
            x, y = comp[u], comp[v]
            comp = [x if c == y else c for c in comp]
            out.append((u, v))
    return sorted(out)


def all_trees(n):
    AE = [(u, v) for u in range(1, n + 1) for v in range(u + 1, n + 1)]
    for E in itertools.combinations(AE, n - 1):
        if len(comps(E, range(1, n + 1))) == 1:
            yield list(E)


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=80.0 if count < 5000 else 900)
    if kind.startswith("allcuts"):
        n, shard, of = map(int, kind.split(":")[1:])
        for i, (E, P) in enumerate(itertools.product(all_trees(n), itertools.product([1, 2] if n > 3 else [0, 1, 2, 3], repeat=n))):
            if i % of != shard:
                continue
            R = Run(random.Random(f"allcuts-{seed}-{n}-{i}"))
            try:
                for t in (1, 2, 3, 2.5):
                    for e16 in (0, 4, 8):
                        for name, one in (("memoization", False), ("contraction", False), ("memoization", True), ("contraction", True)):
                            for pick in range(max(1, n - 1) if n < 5 else 2):
                                R.one_cuts(n, E, list(P), t, e16, name, one, pick)
            except Exception:  # noqa
                if not (R.ev and R.ev[-1]["exc"]):
                    raise
                D.failed += 1
            D.add(dict(ev=R.ev, tags=["exhaustive"]))
            if not D.more():
                break
    else:
        for j in range(count):
            if not D.more():
                break
            R = Run(random.Random(f"trees-{kind}-{seed}-{j}"))
            try:
                getattr(R, kind)()
            except Exception:  # noqa
                if not (R.ev and R.ev[-1]["exc"]):
                    raise
                D.failed += 1
            D.add(dict(ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
