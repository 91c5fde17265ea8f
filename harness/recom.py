"""ReCom steps: python -m harness.recom KIND SEED COUNT OUT      KIND: pairs steps reversible revsteps spectral"""
import random, sys
from functools import partial
from fractions import Fraction
import networkx as nx
from .base import *
from . import rng as R_
from .trees import pops, target, rand_connected_tree, EPS
from gerrychain import proposals as PR, tree as T, updaters as U
from gerrychain.proposals import tree_proposals as TP


class Run:
    def __init__(self, rng, lo=2, hi=8, ks=(1, 2, 2, 2, 3, 3, 4), P=None, tree=False):
        self.rng = rng
        self.n, self.E = (lo, [(i, i + 1) for i in range(1, lo)]) if tree else shape(rng, lo, hi)
        n, E = self.n, self.E
        self.k = rng.choice([x for x in ks if x <= n])
        self.L, self.DL = node_labels(rng, n), part_labels(rng, self.k, comparable=True)
        self.P = P(rng, n) if P else pops(rng, n)
        self.regs = [rng.randint(1, 3) for _ in range(n)]
        self.G = build(rng, n, E, self.L, [{"pop": self.P[v], "county": "c%d" % self.regs[v]} for v in range(n)])
        self.a = contiguous_asg(rng, n, E, self.k)
        self.p = fresh_class()(self.G, {self.L[v]: self.DL[d - 1] for v, d in enumerate(self.a)}, {})
        self.pd = {x: i + 1 for i, x in enumerate(self.DL)}
        self.ev, self.tags = [], {"k=%d" % self.k}

    def ep(self, tol=0):
        return dict(n=self.n, E=[list(e) for e in self.E], k=self.k, pop=[enc(x) for x in self.P], ev=self.ev, tags=sorted(self.tags), tol=tol)

    def asg(self, q):
        return [self.pd.get(q.assignment.mapping[x], 99) for x in self.L]

    def cuts(self):
        return [(u, v) for u, v in self.E if self.a[u - 1] != self.a[v - 1]]

    def do(self, fn, secs=40, **kw):
        try:
            with guard(secs):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def walk(self, steps):
        """Some other contiguous plan: by valid single flips."""
        rng = self.rng
        for _ in range(steps):
            cs = self.cuts()
            if not cs:
                return
            u, v = rng.choice(cs)
            if rng.random() < 0.5:
                u, v = v, u
            b = list(self.a)
            b[u - 1] = b[v - 1]
            if all(len(comps(self.E, [x + 1 for x in range(self.n) if b[x] == d])) == 1 for d in range(1, self.k + 1)):
                self.p, self.a = self.p.flip({self.L[u - 1]: self.DL[b[u - 1] - 1]}), b


class Stub:
    """Stands for the bipartition method: splits the merged districts as they were, or fails."""

    def __init__(self, R, fails=()):
        self.R, self.fails, self.tried = R, fails, []

    def __call__(self, graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False, **kw):
        a = {x: self.R.a[i] for i, x in enumerate(self.R.L)}
        pair = tuple(sorted({a[x] for x in graph.nodes}))
        self.tried.append(pair)
        if pair in self.fails:
            raise T.ReselectException("stub")
        return {x for x in graph.nodes if a[x] == pair[0]}


def pairs(R):
    rng = R.rng
    for _ in range(3):
        if R.cuts():
            def once():
                st = Stub(R)
                PR.recom(R.p, "pop", big, 1, method=st)
                return st.tried[-1]
            big = max(1, max(sum(R.P[v] for v in range(R.n) if R.a[v] == d) for d in range(1, R.k + 1)))

            def f():
                try:
                    D = R_.explore(once, limit=2000)
                except (R_.TooMany, R_.Concrete):
                    R.tags.add("not-enumerable")
                    return dict(outs=[], all=0)
                return dict(outs=[[o[0], o[1] if len(o) > 1 else o[0], x.numerator, x.denominator] for o, x in sorted(D.out.items())], all=1)
            R.do(f, k="pairs", a=list(R.a))
        adj = sorted({tuple(sorted((R.a[u - 1], R.a[v - 1]))) for u, v in R.cuts()})
        fails = adj if rng.random() < 0.3 else [x for x in adj if rng.random() < 0.6]
        st = Stub(R, fails)
        big = max(1, sum(R.P))

        def g():
            random.seed(rng.randrange(10**9))
            try:
                PR.recom(R.p, "pop", big, 1, method=st)
                res = "split"
            except TP.MetagraphError as e:
                res = exc_name(e)
            return dict(res=res, tried=[list(x) for x in st.tried])
        R.tags.add("all-fail" if fails == adj else "some-fail")
        R.do(g, 15, k="reselect", a=list(R.a), fails=[list(x) for x in fails])
        R.walk(3)


def steps(R):
    rng = R.rng
    for _ in range(rng.randint(2, 6)):
        ideal = sum(R.P) / R.k
        t = max(0.25, math.floor(4 * ideal) / 4) if rng.random() < 0.8 else target(rng, R.P)
        e16 = rng.choice(EPS)
        meth = rng.choice(["bipartition_tree", "bipartition_tree", "bipartition_tree_random", "ReCom", "reselect", "uniform"])
        mx = rng.choice([3, 1000 if R.n <= 7 else 100])
        rep = rng.choice([1, 1, 2])
        kw, allowed = {}, ["RuntimeError", "MetagraphError"]
        fn = T.bipartition_tree_random if meth in ("bipartition_tree_random", "ReCom") else T.bipartition_tree
        opts = dict(max_attempts=mx)
        if fn is T.bipartition_tree and rng.random() < 0.5:
            opts["warn_attempts"] = rng.choice([1, 2, 3])
        if meth == "reselect":
            opts["allow_pair_reselection"] = True
            allowed = ["MetagraphError"]
        if meth == "uniform":
            opts["spanning_tree_fn"] = T.uniform_spanning_tree
        method = partial(fn, **opts)
        if meth not in ("ReCom", "bipartition_tree_random") and rng.random() < 0.4:
            kw["region_surcharge"] = {"county": rng.choice([0.5, 1, 3])}
            R.tags.add("region-surcharge")
        R.tags.add(meth)
        p, a = R.p, list(R.a)

        def f():
            random.seed(rng.randrange(10**9))
            try:
                if meth == "ReCom":
                    q = PR.ReCom("pop", t, e16 / 16, method)(p)
                else:
                    q = PR.recom(p, "pop", t, e16 / 16, node_repeats=rep, method=method, **kw)
            except (RuntimeError, TP.MetagraphError) as e:
                return dict(res=exc_name(e), b=[], kept=int(R.asg(p) == a))
            R.q = q
            return dict(res="plan", b=R.asg(q), kept=int(R.asg(p) == a))
        sure = mx == 1000 and not kw
        R.do(f, 60, k="step", a=a, t=enc(t), eps=e16, allowed=allowed, sure=int(sure), meth=meth)
        e = R.ev[-1]
        R.tags.add("step:" + e["res"])
        if e["res"] == "plan":
            ok = all(len(comps(R.E, [x + 1 for x in range(R.n) if e["b"][x] == d])) == 1 for d in range(1, R.k + 1))
            if not ok or 99 in e["b"]:
                return
            R.p, R.a = R.q, e["b"]
        else:
            R.walk(2)


class Uniform:
    """Replaces the drawing of uniform spanning trees (decided by C11) by one
    choice among all of them."""

    def __init__(self, R):
        self.R, self.calls, self.cache = R, 0, {}

    def trees(self, graph):
        key = frozenset(graph.nodes)
        if key not in self.cache:
            import itertools
            E = list(graph.edges)
            self.cache[key] = [t for t in itertools.combinations(E, len(key) - 1)
                               if (lambda H: H.number_of_nodes() == len(key) and nx.is_connected(H))(nx.Graph(list(t)))] or [()]
        return self.cache[key]

    def __call__(self, graph, choice=random.choice):
        self.calls += 1
        t = choice(self.trees(graph))
        H = nx.Graph()
        H.add_nodes_from(graph.nodes)
        H.add_edges_from(t)
        return H


def reversible(R):
    rng = R.rng
    ideal = sum(R.P) / R.k
    t = max(0.25, math.floor(4 * ideal) / 4)
    e16 = rng.choice([0, 2, 4, 8, 8, 12, 15])
    M = rng.choice([1, 2, 3, 4, 6, 10])
    bal = rng.choice([T.find_balanced_edge_cuts_memoization, T.find_balanced_edge_cuts_contraction])
    p, a = R.p, list(R.a)
    stub = Uniform(R)
    kw = {} if rng.random() < 0.5 else dict(balance_edge_fn=bal)
    if M > 1 or rng.random() < 0.5:
        kw["M"] = M

    def once():
        try:
            return tuple(R.asg(TP.reversible_recom(p, "pop", t, e16 / 16, **kw)))
        except TP.ReversibilityError:
            return "error"

    def f():
        saved = [(m, m.uniform_spanning_tree) for m in (T, TP) if hasattr(m, "uniform_spanning_tree")]
        exact = True
        try:
            for m, _ in saved:
                m.uniform_spanning_tree = stub
            D = R_.explore(once, limit=20000, floats=R_.lazy)
            moved = any(o not in ("error", tuple(a)) for o in D.out)
            if moved and not stub.calls:
                exact = False
        except (R_.TooMany, R_.Concrete):
            exact = False
        finally:
            for m, x in saved:
                m.uniform_spanning_tree = x
        if not exact:
            D = R_.sample(once, 20000, 5)
            R.tags.add("sampled")
        R.tol = 0 if exact else 15000
        return dict(outs=[[list(o), int(x * 10**6)] for o, x in D.out.items() if o != "error"],
                    err=int(D.out.get("error", Fraction(0)) * 10**6), kept=int(R.asg(p) == a))
    R.do(f, 120, k="reversible", a=a, t=enc(t), eps=e16, M=M)
    e = R.ev[-1]
    if e["err"]:
        R.tags.add("error")
    if len(e["outs"]) > 1:
        R.tags.add("moves")


def revsteps(R):
    rng = R.rng
    t = max(0.25, math.floor(4 * sum(R.P) / R.k) / 4)
    e16 = rng.choice([2, 4, 8, 12])
    for _ in range(8):
        p, a = R.p, list(R.a)
        rep = R.k == 2 and rng.random() < 0.3 and False

        def f():
            random.seed(rng.randrange(10**9))
            q = TP.reversible_recom(p, "pop", t, e16 / 16, M=30)
            R.q = q
            return dict(b=R.asg(q))
        R.do(f, k="revstep", a=a, t=enc(t), eps=e16)
        R.p, R.a = R.q, R.ev[-1]["b"]
        if 99 in R.a or not all(len(comps(R.E, [x + 1 for x in range(R.n) if R.a[x] == d])) == 1 for d in range(1, R.k + 1)):
            return


def fiedler(E, S, norm):
    """Entries (thousandths, scaled to at most 1000) of the vector that decides a spectral
    cut of the nodes S, and its eigenvalue; None if signs are not settled by it."""
    import numpy as np
    S = sorted(S)
    A = np.zeros((len(S), len(S)))
    for u, v in E:
        if u in S and v in S:
            A[S.index(u), S.index(v)] = A[S.index(v), S.index(u)] = 1
    d = A.sum(axis=1)
    M = np.diag(d) - A
    if norm:
        M = M / np.sqrt(np.outer(d, d))
    w, V = np.linalg.eigh(M)
    x = V[:, 1] / np.sqrt(d) if norm else V[:, 1]
    x = x / abs(x).max()
    if (len(S) > 2 and w[2] - w[1] < 1e-6) or abs(x).min() < 1e-3:
        return None
    return S, [int(round(1000 * y)) for y in x], int(round(1000 * w[1]))


def spectral(R):
    from gerrychain.proposals import spectral_recom
    from gerrychain.proposals.spectral_proposals import spectral_cut
    rng = R.rng
    for _ in range(rng.randint(2, 5)):
        if not R.cuts():
            return
        lap = rng.choice(["normalized", "normalized", "other"])
        wt = rng.choice([None, None, "random", "equal"])
        kw = {}
        if lap != "normalized" or rng.random() < 0.5:
            kw["lap_type"] = lap
        if wt:
            kw["weight_type"] = "random"
        p, a = R.p, list(R.a)
        data = lambda: (R.asg(p) == a, sorted((sorted(map(repr, e)), sorted(map(repr, R.G.edges[e].items()))) for e in p.graph.edges))
        before = data()

        def once():
            R.q = spectral_recom(p, **kw)
            return tuple(R.asg(R.q))

        def f():
            r = {}
            if wt != "random":     # every outcome; equal weights are as good as none
                try:
                    D = R_.explore(once, limit=200, floats=(lambda s: 0.5) if wt else (lambda s: 0.01 + 0.9 * rng.random()))
                    r["outs"] = [[list(o), x.numerator, x.denominator] for o, x in sorted(D.out.items())]
                    r["all"] = 1
                except (R_.TooMany, R_.Concrete):
                    r["all"] = 0
            else:
                r["all"] = 0
            if not r["all"]:
                random.seed(rng.randrange(10**9))
                r["outs"] = [[list(once()), 1, 1]]
            r["kept"] = int(data() == before)
            vec = []
            if wt != "random":
                for pr in sorted({tuple(sorted((a[u - 1], a[v - 1]))) for u, v in R.cuts()}):
                    x = fiedler(R.E, [v + 1 for v in range(R.n) if a[v] in pr], lap == "normalized")
                    if x:
                        vec.append(dict(pair=list(pr), S=x[0], x=x[1], lam=x[2]))
            r["vec"] = vec
            return r
        R.tags |= {"laplacian-" + lap, "weights-%s" % wt}
        R.do(f, k="spectral", a=a, norm=int(lap == "normalized"), rnd=int(wt == "random"))
        b = R.asg(R.q)
        if 99 in b or not all(len(comps(R.E, [x + 1 for x in range(R.n) if b[x] == d])) == 1 for d in range(1, R.k + 1)):
            R.walk(2)
        else:
            R.p, R.a = R.q, b


def varied(R):
    """Random weights: the same pair of districts, split again and again."""
    from gerrychain.proposals import spectral_recom
    rng = R.rng
    kw = rng.choice([{}, dict(lap_type="other"), dict(lap_type="normalized")])

    def f():
        random.seed(rng.randrange(10**9))
        return dict(seen=sorted({tuple(x == y[0] for x in y) for y in (R.asg(spectral_recom(R.p, weight_type="random", **kw)) for _ in range(80))}))
    R.do(f, k="varied")
    R.tags.add("varied")


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=80.0 if count < 3000 else 900)
    for j in range(count):
        if not D.more():
            break
        rng = random.Random(f"recom-{kind}-{seed}-{j}")
        if kind == "reversible":
            R = Run(rng, 2, rng.choice([4, 5, 5, 6]), (1, 2, 2, 2, 3), P=lambda r, n: [1] * n if r.random() < 0.6 else [r.choice([1, 1, 2]) for _ in range(n)])
        elif kind == "spectral":
            if j == 0:            # a path of seven nodes
                R = Run(rng, 7, 7, (2,), tree=True)
            else:
                R = Run(rng, *((11, 20) if rng.random() < 0.1 else (2, 9)), (2, 2, 3, 4))
        elif kind == "pairs":
            R = Run(rng, 2, 9, (1, 2, 3, 3, 4, 5))
        else:
            R = Run(rng, *((12, 24, (2, 3, 4, 6, 8)) if rng.random() < 0.05 else ()))
        R.tol = 0
        try:
            (varied if kind == "spectral" and j == 0 else globals()[kind])(R)
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(R.ep(R.tol))
    D.save()


if __name__ == "__main__":
    main()
