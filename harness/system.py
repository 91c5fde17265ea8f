"""Whole runs of chains and optimizers: python -m harness.system SEED COUNT OUT [SCENARIOS]"""
import os, random, sys
from functools import partial
from .base import *
from . import plan as PL
from .plan import Up, Gr, GridGr, Stop, COL
from gerrychain import MarkovChain, accept as ACC, constraints as C, proposals as PR, tree as T, updaters as U
from gerrychain.constraints import Validator
from gerrychain.constraints.contiguity import number_of_contiguous_parts
from gerrychain.optimization import SingleMetricOptimizer
from gerrychain.proposals import tree_proposals as TP

os.environ["TQDM_DISABLE"] = "1"
FLIPS = {"random": PR.propose_random_flip, "reversible": PR.slow_reversible_propose, "bi": PR.slow_reversible_propose_bi,
         "any": PR.propose_any_node_flip, "chunk": PR.propose_chunk_flip, "every": PR.propose_flip_every_district}


class Enough(Exception):
    """Too many proposals without a valid one: the run is left."""


class SysGr(Gr):
    """A connected map with a population in column C."""

    def __init__(self, rng, n=None, E=None, pops=None, L=None):
        if n is None:
            n, E = shape(rng, 4, 12)
        Gr.__init__(self, rng, "C05", n, E, L)
        top = rng.choice([1, 1, 3, 20])
        p = pops or [rng.randint(1, top) for _ in range(n)]
        self.raw[2] = p
        self.cols[2] = [x * self.unit for x in p]
        self.pc, self.popcol, self.popkey = 3, "C", "population"
        self.pops = p
        self.G = build(rng, n, self.E, self.L, [self.attrs(v) for v in range(n)], {e: {"shared_perim": self.w[e]} for e in self.E})


LAST = []       # the map of the run before this one


def rewired(rng, gr):
    """Another connected map on the same nodes, with as many edges."""
    E = set(gr.E)
    for _ in range(rng.randint(1, 3)):
        free = [(u, v) for u in range(1, gr.n + 1) for v in range(u + 1, gr.n + 1) if (u, v) not in E]
        if not free:
            break
        e, f = rng.choice(sorted(E)), rng.choice(free)
        F = E - {e} | {f}
        if len(comps(sorted(F), list(range(1, gr.n + 1)))) == 1:
            E = F
    return SysGr(rng, gr.n, sorted(E), L=gr.L)


class SysGrid(GridGr):
    def __init__(self, rng):
        while True:
            GridGr.__init__(self, rng)
            if self.n >= 4:
                break
        self.pc, self.popcol, self.popkey = 1, "population", "population"
        self.pops = [1] * self.n


class Run(PL.Run):
    def __init__(self, rng):
        PL.Run.__init__(self, rng, "C05")
        self.head = dict(cons=[], prop="script", how="chain", acc="always", metric="", N=1, t=1, eps=0, may=[], pc=1, first=1)
        self.keep = rng.random() < 0.6     # hold on to plans that were turned down
        self.made, self.want = 0, -1

    # -- the first plan --------------------------------------------------------
    def begin(self, gr, k, a):
        rng = self.rng
        self.gr, self.graphs = gr, [gr]
        DL = part_labels(rng, k, comparable=True)
        self.head["pc"] = gr.pc
        if isinstance(gr, GridGr):
            ups = [Up("cut_edges", "cut", None), Up("cut_edges_by_part", "cutp", None), Up("boundary_nodes", "rim", None),
                   Up("exterior_boundaries", "ext", None), Up("interior_boundaries", "int", None), Up("perimeter", "per", None),
                   Up("population", "tally", None, cs=[1]), Up("area", "tally", None, cs=[8])]
            make = lambda: PL.grid_class()(gr.dim, gr.diag, {x: DL[d - 1] for x, d in zip(gr.L, a)})
            self.tags.add("grid")
        else:
            geo = rng.random() < 0.5
            ups = [u for u in PL.make_updaters(rng, "C05", gr, self.shared) if u.name != "step"]
            if not any(u.kind == "elec" for u in ups):
                ups.append(Up("E0", "elec", U.Election("E0", ["V0", "V1"]), ps=[4, 5], parties=["V0", "V1"]))
            if not any(u.name == "cs" for u in ups):
                ups.append(Up("cs", "cty", U.county_splits("cs", "county"), c=1))
            ups.append(Up("population", "tally", U.Tally("C", alias="population"), cs=[3]))
            rng.shuffle(ups)
            names = {u.name: (self.counted(u) if self.keep else u.fn) for u in ups}
            make = lambda: fresh_class(geographic=geo)(gr.G, {x: DL[d - 1] for x, d in zip(gr.L, a)}, names)
        kw = dict(k="new", g=1, kk=k, a=list(a))
        p = self.trying(make, ok=0, **kw)
        self.emit(ok=1, **kw)
        self.plans.append(dict(p=p, gr=gr, DL=DL, ups=ups, k=k, a=list(a), par=0))
        self.pd = {x: i + 1 for i, x in enumerate(DL)}
        return p

    def idx(self, p):
        return next((i for i, P in enumerate(self.plans, 1) if P["p"] is p), 0)

    def asg(self, p):
        return [self.pd.get(p.assignment.mapping[x], 99) for x in self.gr.L]

    # -- looking ------------------------------------------------------------------
    def sync(self, i):
        P = self.plans[i - 1]
        if P["p"].parent is None and P["par"] and P.get("cut") is None:
            self.drop(i)

    def look(self, i, most=3):
        P = self.plans[i - 1]
        self.sync(i)
        if self.rng.random() < 0.25:
            self.obs(i)
        for u in self.rng.sample(P["ups"], min(self.rng.randint(1, most), len(P["ups"]))):
            self.read(i, u)

    def read(self, i, u=None):
        if not self.keep:
            self.focus = "run"        # objects may come and go: calls are not counted
        PL.Run.read(self, i, u)
        self.focus = "C05"

    # -- the parts of a run --------------------------------------------------------
    def propose(self, fn):
        def f(p):
            self.made += 1
            if self.made > self.limit:
                raise Enough()
            i = self.idx(p)
            q = fn(p)
            j = self.idx(q)
            b = self.asg(q)
            self.emit(k="propose", **{"from": i}, id=j, b=b, want=self.want)
            if not j:
                P = self.plans[0]
                self.plans.append(dict(P, p=q, a=b, par=i, cut=None))
                if not self.keep:
                    self.clean(q, p)
            return q
        f.__name__ = getattr(fn, "__name__", "proposal")
        return f

    def clean(self, *live):
        """Forgets plans that the run does not hold any more."""
        for i, P in enumerate(self.plans[1:], 2):
            if P["p"] is not None and i > self.head["first"] and all(P["p"] is not x for x in live) and i not in self.given:
                P["p"] = None

    def spy(self, where):
        """A constraint of the user that only looks."""
        def looks(p):
            i = self.idx(p)
            if i and self.rng.random() < 0.3:
                self.look(i, 2)
            return True
        return looks

    def constraints(self, p0, single):
        rng, gr = self.rng, self.gr
        P = self.plans[self.head["first"] - 1]
        k, a = P["k"], P["a"]
        key = gr.popkey
        pd = [sum(gr.pops[v] for v in range(gr.n) if a[v] == d) for d in range(1, k + 1)]
        tot = sum(gr.pops)
        cuts = lambda q: len(q["cut_edges"])
        nc = sum(1 for u, v in gr.E if a[u - 1] != a[v - 1])
        off = max(abs(k * x - tot) * 16 / tot for x in pd)
        cs = []
        add = lambda fn, c, x=0, ps=(): cs.append((fn, dict(c=c, x=x, ps=list(ps))))
        base = rng.choice(["contig", "contig", "bfs", "single", "vanish", "whole"])
        if base == "single" and not single:
            base = "contig"
        if base == "contig":
            add(C.contiguous, "contig")
        elif base == "bfs":
            add(C.contiguous_bfs, "contig")
        elif base == "single":
            add(C.single_flip_contiguous, "contig")
        elif base == "whole":
            add(C.SelfConfiguringLowerBound(number_of_contiguous_parts), "whole")
            add(C.no_vanishing_districts, "vanish")
        if base == "vanish" or rng.random() < 0.3:
            add(C.no_vanishing_districts, "vanish")
        slack = rng.choice([0, 1, 4, 8])
        if rng.random() < 0.5 and (tot * gr.unit) % k == 0:
            x = min(15, math.ceil(off) + slack) if rng.random() < 0.95 else 0
            add(C.within_percent_of_ideal_population(p0, x / 16, pop_key=key) if key != "population" or rng.random() < 0.5
                else C.within_percent_of_ideal_population(p0, x / 16), "pop", x)
        if rng.random() < 0.2:
            x = rng.choice([2, 4, 8])
            if rng.random() < 0.1 or 16 * (max(pd) - min(pd)) <= x * min(pd):
                def close(q, x=x):
                    return C.districts_within_tolerance(q, key, x / 16)
                add(close, "tol", x)
        if rng.random() < 0.25:
            x = nc + rng.choice([0, 1, 2, 3])
            add(C.UpperBound(cuts, x), "cutmax", x)
        if rng.random() < 0.1:
            x = max(0, nc - rng.choice([0, 1, 2]))
            add(C.LowerBound(cuts, x), "cutmin", x)
        if rng.random() < 0.15:
            add(C.SelfConfiguringUpperBound(cuts), "cutself")
        if rng.random() < 0.15:
            j = rng.choice([2, 4, 8])
            add(C.WithinPercentRangeOfBounds(cuts, 12.5 * j), "cutrange", j)
        if not isinstance(gr, GridGr):
            if rng.random() < 0.2:
                add(C.refuse_new_splits("cs"), "nosplit")
            if rng.random() < 0.15:
                u = rng.choice([u for u in P["ups"] if u.kind == "elec"])
                party = u.kw["parties"][0]

                def safe(q):
                    return q[u.name].seats(party) >= s
                s = 0
                s = rng.choice([0, 0, 1, P["p"][u.name].seats(party)])
                add(safe, "seats", s, u.kw["ps"])
        rng.shuffle(cs)
        fns = [f for f, _ in cs]
        if rng.random() < 0.5:
            fns.insert(rng.randint(0, len(fns)), self.spy("constraint"))
        self.head["cons"] = [c for _, c in cs]
        self.tags |= {"constraint:" + c["c"] for _, c in cs}
        form = rng.randrange(4)
        if form == 0:
            return Validator(fns)
        if form == 1:
            return tuple(fns)
        if form == 2:
            return iter(fns)
        return fns

    def proposal(self, kind):
        rng, gr = self.rng, self.gr
        H = self.head
        H["prop"] = kind
        if kind in FLIPS:
            fn = FLIPS[kind]
        else:
            k = self.plans[0]["k"]
            t4 = max(1, 4 * sum(gr.pops) // k)
            e16 = rng.choice([4, 8, 8, 12, 15])
            t = t4 / 4 * gr.unit if t4 % 4 else t4 // 4 * gr.unit
            H.update(t=t4, eps=e16)
            if kind == "recom":
                H["may"] = ["RuntimeError", "MetagraphError"]
                m = rng.choice([T.bipartition_tree, T.bipartition_tree, T.bipartition_tree_random])
                opts = dict(max_attempts=60)
                if m is T.bipartition_tree:
                    if rng.random() < 0.5:
                        opts["allow_pair_reselection"] = True
                    if rng.random() < 0.3:
                        opts["spanning_tree_fn"] = T.uniform_spanning_tree
                    if rng.random() < 0.3:
                        opts["balance_edge_fn"] = T.find_balanced_edge_cuts_contraction
                        opts.pop("balance_edge_fn")
                method = partial(m, **opts)
                if rng.random() < 0.4:
                    fn = PR.ReCom(gr.popcol, t, e16 / 16, method)
                else:
                    fn = partial(PR.recom, pop_col=gr.popcol, pop_target=t, epsilon=e16 / 16, node_repeats=rng.choice([1, 2]), method=method)
            elif kind == "revrecom":
                H["may"] = ["ReversibilityError", "RuntimeError"]
                fn = partial(TP.reversible_recom, pop_col=gr.popcol, pop_target=t, epsilon=e16 / 16, M=rng.choice([2, 6, 12]))
            else:
                fn = partial(PR.spectral_recom, weight_type=rng.choice([None, "random"]), lap_type=rng.choice(["laplacian", "normalized_laplacian"]))
        return self.propose(fn)

    # -- runs ---------------------------------------------------------------------
    def setting(self):
        rng = self.rng
        # another map with the same names, and often the same districts
        twin = LAST and not isinstance(LAST[0], GridGr) and rng.random() < 0.3
        gr = rewired(rng, LAST[0]) if twin else SysGrid(rng) if rng.random() < 0.12 else SysGr(rng)
        if twin:
            self.tags.add("same-names-other-map")
            if rng.random() < 0.5:
                return gr, LAST[1], LAST[2]
        k = rng.choice([x for x in (2, 2, 3, 3, 4) if x * 2 <= gr.n] or [2])
        a = contiguous_asg(rng, gr.n, gr.E, k) if rng.random() < 0.95 else rand_asg(rng, gr.n, k)
        LAST[:] = [gr, k, a]
        return gr, k, a

    def history(self, single):
        """Flips before the run starts: every plan but the last is contiguous."""
        rng = self.rng
        i, steps = 1, rng.choice([0, 0, 1, 1, 2, 4])
        for s in range(steps):
            P = self.plans[i - 1]
            gr, a, k = P["gr"], P["a"], P["k"]
            for _ in range(10):
                cut = [e for e in gr.E if a[e[0] - 1] != a[e[1] - 1]]
                if not cut:
                    return i
                u, v = rng.choice(cut)
                f = {u: a[v - 1]} if rng.random() < 0.5 else {v: a[u - 1]}
                if not single and s == steps - 1 and rng.random() < 0.3:
                    f = self.random_flip(i)
                b = list(a)
                for x, d in f.items():
                    b[x - 1] = d
                if s == steps - 1 or self.whole(b, k):
                    break
            else:
                return i
            if rng.random() < 0.4:
                self.look(i)
            i = self.flip(i, f)
            self.tags.add("run-starts-at-a-flip")
            # without its parent, districts that a plan lost are not missed
            if rng.random() < 0.2 and len(set(b)) == k:
                self.drop(i)
        return i

    def whole(self, a, k):
        return all(len(comps(self.gr.E, [v + 1 for v in range(self.gr.n) if a[v] == d])) == 1 for d in range(1, k + 1))

    def drive(self, it, N, until=0):
        """Takes the states from the run and looks at them and at earlier ones."""
        rng = self.rng
        n = 0
        while True:
            try:
                p = next(it)
            except StopIteration:
                self.emit(k="stop")
                return
            i = self.idx(p)
            self.emit(k="state", id=i)
            n += 1
            if not i:
                raise Stop()
            self.given.append(i)
            if rng.random() < self.often:
                self.look(i, 4)
            if rng.random() < 0.2:
                self.look(rng.choice(self.given), 2)
            if n > N + 2 or n == until:
                return

    def episode(self):
        rng, H = self.rng, self.head
        gr, k, a = self.setting()
        p0 = self.begin(gr, k, a)
        self.limit = rng.choice([120] * 15 + [1200])
        self.often = rng.choice([0, 0.1, 0.4, 1])
        kind = rng.choice(["random", "random", "reversible", "bi", "any", "chunk", "every", "recom", "recom", "recom", "revrecom", "spectral"])
        first, single = 1, kind in ("random", "reversible", "bi")
        if self.whole(a, k):
            first = self.history(single)
        H["first"], p0, a = first, self.plans[first - 1]["p"], self.plans[first - 1]["a"]
        self.given = [first]
        whole = self.whole(a, k)
        if not whole and kind in ("recom", "revrecom", "spectral"):
            kind = "random"
        if kind == "revrecom" and gr.n > 8:
            kind = "recom"
        if kind == "every" and "cut_edges_by_part" not in [u.name for u in self.plans[0]["ups"]]:
            kind = "random"
        if rng.random() < 0.3:
            self.look(first)
        self.tags.add("proposal:" + kind)
        N = H["N"] = rng.choice([1, 3, 6, 12, 12, 20])
        random.seed(rng.randrange(10**9))
        cons = self.trying(lambda: self.constraints(p0, single), k="built")
        # halves of a spectral step may be in pieces: the next step needs them whole
        prop = self.proposal(kind)
        try:
            with guard(60):
                if rng.random() < 0.7:
                    H["how"], H["acc"] = "chain", rng.choice(["always", "always", "cut"])
                    try:
                        ch = MarkovChain(prop, cons, ACC.always_accept if H["acc"] == "always" else ACC.cut_edge_accept, p0, N)
                    except ValueError as e:
                        self.emit(k="built", got=exc_name(e))
                        self.tags.add("refused")
                        return
                    self.emit(k="built", got="ok")
                    start = first
                    for _ in range(rng.choice([1, 1, 1, 2])):
                        if rng.random() < 0.1:     # left half-way, and started over
                            self.emit(k="iter", **{"from": start})
                            self.drive(iter(ch), N, rng.randint(1, N))
                            self.tags.add("started-over")
                        self.emit(k="iter", **{"from": start})
                        self.drive(iter(ch.with_progress_bar() if rng.random() < 0.1 else ch), N)
                        if rng.random() < 0.5:     # another chain from where this one ended
                            start = self.given[-1]
                            ch = MarkovChain(prop, ch.constraints, ch.accept, self.plans[start - 1]["p"], N)
                            self.tags.add("goes-on-from-last-state")
                else:
                    self.optimize(prop, cons, p0)
            for i in rng.sample(self.given, min(5, len(self.given))):
                self.look(i, 6)
        except Enough:
            self.tags.add("left")
            for i in rng.sample(self.given, min(3, len(self.given))):
                self.look(i, 6)
        except Stop:
            raise
        except Exception as e:  # noqa
            if exc_name(e) in H["may"]:
                self.emit(k="gaveup", got=exc_name(e))
                self.tags.add("gave-up")
            else:
                self.emit(k="state", id=1, exc=exc_name(e), detail=trace_of(e))
                raise Stop()

    def optimize(self, prop, cons, p0):
        rng, H = self.rng, self.head
        H["how"] = "opt"
        H["metric"] = rng.choice(["fewcuts", "balance", "whole"])
        key = self.gr.popkey
        score = {"fewcuts": lambda p: -len(p["cut_edges"]), "whole": number_of_contiguous_parts,
                 "balance": lambda p: min(p[key].values()) - max(p[key].values())}[H["metric"]]
        maxi = rng.random() < 0.5
        o = SingleMetricOptimizer(prop, cons, p0, score if maxi else (lambda p: -score(p)), maximize=maxi)
        kind = rng.choice(["short", "variable", "tiltedbursts", "tilted", "anneal"])
        N = H["N"]
        if kind in ("short", "tiltedbursts"):
            ln = rng.choice([1, 2, 3, 5])
            N = H["N"] = ln * max(1, N // ln)
            g = o.short_bursts(ln, N // ln) if kind == "short" else o.tilted_short_bursts(ln, N // ln, rng.choice([0, 0.25, 1]))
        elif kind == "variable":
            g = o.variable_length_short_bursts(N, rng.choice([1, 2]))
        elif kind == "tilted":
            g = o.tilted_run(N, rng.choice([0, 0.25, 1]))
        else:
            g = o.simulated_annealing(N, o.jumpcycle_beta_function(2, 3), rng.choice([0.5, 1, 3]))
        self.tags.add("optimizer:" + kind)
        self.emit(k="iter", **{"from": H["first"]})
        # invalid initial plans are refused when the run starts
        it = iter(g)
        try:
            first = next(it)
        except ValueError as e:
            self.emit(k="built", got=exc_name(e))
            self.tags.add("refused")
            return
        self.emit(k="built", got="ok")

        def again():
            yield first
            yield from it
        self.drive(again(), N)

    def replay(self, sc):
        """A run written out from the specification: flips proposed one after the other,
        with the verdict of the acceptance rule, and reads."""
        rng, H = self.rng, self.head
        gr = SysGr(rng, sc["n"], sorted(tuple(e) for e in sc["E"]), sc["pop"])
        p0 = self.begin(gr, sc["k"], sc["a"])
        self.given, self.limit = [1], 10**6
        ops = list(sc["ops"])
        H["N"], H["acc"] = sc["N"], "script"
        last = []

        def looks():
            while ops and ops[0]["o"] == "read":
                ops.pop(0)
                self.look(self.given[-1], 3)

        def flip(p):
            looks()
            if not ops:
                raise Enough()
            op = ops.pop(0)
            last[:] = [op["o"]]
            self.want = {"yes": 1, "no": 0}.get(op["o"], -1)
            return p.flip({gr.L[v - 1]: self.plans[0]["DL"][d - 1] for v, d in op["f"]})

        def accept(p):
            return last[0] != "no"
        cs = [(C.contiguous, dict(c="contig", x=0, ps=[])), (C.SelfConfiguringUpperBound(lambda q: len(q["cut_edges"])), dict(c="cutself", x=0, ps=[])),
              (C.within_percent_of_ideal_population(p0, sc["pct"] / 16), dict(c="pop", x=sc["pct"], ps=[]))]
        cs = [c for c in cs if c[1]["c"] in sc["cons"]]
        rng.shuffle(cs)
        H["cons"] = [c for _, c in cs]
        self.tags.add("generated")
        ch = MarkovChain(self.propose(flip), [f for f, _ in cs], accept, p0, sc["N"])
        self.emit(k="built", got="ok")
        self.emit(k="iter", **{"from": 1})
        try:
            with guard(30):
                self.drive(iter(ch), sc["N"])
        except Enough:
            pass
        for i in self.given:
            self.look(i, 3)


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    scen = sys.argv[4] if len(sys.argv) > 4 else None
    D = Driver(out, 200.0)
    jobs = [json.loads(x) for x in open(scen)] if scen else [None] * count
    for j, sc in enumerate(jobs):
        if not D.more():
            break
        R = Run(random.Random(f"system-{seed}-{j}"))
        try:
            if sc:
                R.often = 0.2
                R.replay(sc)
            else:
                R.episode()
        except Stop:
            D.failed += 1
        D.add(dict(R.head, gs=[g.header() for g in R.graphs], ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
