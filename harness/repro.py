"""Reproducibility of seeded runs.
python -m harness.repro runs SEED COUNT OUT        two processes per batch of jobs
python -m harness.repro child SEED JOBS MODE       prints the runs of one process"""
import gc, json, os, random, subprocess, sys
from functools import partial
import networkx as nx
import numpy as np
from .base import *
from gerrychain import MarkovChain, Partition, Graph, accept, constraints, proposals, tree as T, updaters
from gerrychain.optimization import SingleMetricOptimizer, Gingleator
from .seeding import snapshot


def make_graph(rng):
    w, h = rng.choice([(3, 3), (4, 3), (4, 4), (2, 5), (6, 2)] * 2 + [(9, 9)])
    g = nx.grid_2d_graph(w, h)
    if rng.random() < 0.3:
        g.add_edges_from([((i, j), (i + 1, j + 1)) for i in range(w - 1) for j in range(h - 1) if rng.random() < 0.5])
    c = rng.randrange(3)
    f = (lambda x: x) if c == 0 else (lambda x: x[0] * h + x[1]) if c == 1 else (lambda x: "v%d_%d" % x)
    order = list(g.nodes)
    rng.shuffle(order)
    G = Graph()
    for x in order:
        G.add_node(f(x), pop=1, county="c%d" % (x[0] // 2), muni="m%d" % (x[1] // 2), min=rng.randint(0, 1), tot=1,
                   boundary_node=x[0] in (0, w - 1) or x[1] in (0, h - 1), D=rng.randint(0, 3), R=rng.randint(0, 3))
    for u, v in g.edges:
        G.add_edge(f(u), f(v))
    start = {f(x): x[0] * 2 // w for x in order}
    return G, start


def ups():
    return {"pop": updaters.Tally("pop"), "min": updaters.Tally("min"), "tot": updaters.Tally("tot"),
            "E": updaters.Election("E", {"D": "D", "R": "R"}), "cut_edges_by_part": updaters.cut_edges_by_part,
            "boundary_nodes": updaters.boundary_nodes}


def yes(plan):
    return True


class Job:
    """One kind of run; everything about it follows from its number."""
    KINDS = ("flip", "flip", "reversible", "bi", "any", "chunk", "every", "recom", "recom", "recom-region", "rrecom", "treepart", "seedpart",
             "random", "bursts", "vbursts", "tilted", "anneal", "gingles", "tree", "utree", "spectral", "bfs")

    def __init__(self, seed, j):
        self.kind = self.KINDS[j % len(self.KINDS)]
        self.rng0 = random.Random(f"repro-{seed}-{j}")
        self.G, self.start = make_graph(self.rng0)
        self.seed = self.rng0.randrange(10**6)
        self.par = self.rng0.randrange(10**6)
        self.nodes = list(self.G.nodes)
        self.before = snapshot(self.G)
        self.cls = fresh_class()
        self.plan = None

    def new_plan(self):
        return self.cls(self.G, self.start, ups())

    def chain(self, plan, prop, cons=None, acc=None, n=12):
        cons = cons or [constraints.contiguous]
        return MarkovChain(prop, cons, acc or accept.always_accept, plan, n)

    def follow(self, chain, enc_):
        out = []
        try:
            for p in chain:
                out.append(enc_(p))
        except IndexError:      # a chunk flip without cut edges
            out.append(["IndexError"])
        return out

    def run(self, reuse):
        """The sequence of plans (or trees) of the run, seeded."""
        r = random.Random(self.par)
        if reuse and self.plan is not None:
            plan = self.plan
        else:
            plan = self.plan = self.new_plan()
        random.seed(self.seed)
        k, G = self.kind, self.G
        enc_ = lambda p: [p.assignment.mapping[x] for x in self.nodes]
        acc = r.choice([accept.always_accept, accept.cut_edge_accept])
        bounds = constraints.within_percent_of_ideal_population(plan, 0.5, "pop")
        ideal = len(self.nodes) / 2
        if k in ("flip", "reversible", "bi", "any", "chunk", "every", "bfs"):
            prop = {"flip": proposals.propose_random_flip, "reversible": proposals.slow_reversible_propose, "bi": proposals.slow_reversible_propose_bi,
                    "any": proposals.propose_any_node_flip if hasattr(proposals, "propose_any_node_flip") else proposals.propose_random_flip,
                    "chunk": proposals.propose_chunk_flip, "every": proposals.propose_flip_every_district if hasattr(proposals, "propose_flip_every_district") else proposals.propose_random_flip,
                    "bfs": proposals.propose_random_flip}[k]
            if k == "every":
                from gerrychain.proposals.proposals import propose_flip_every_district as prop  # noqa
            if k == "any":
                from gerrychain.proposals.proposals import propose_any_node_flip as prop  # noqa
            cons = {"bfs": [constraints.contiguous_bfs, bounds], "any": [bounds], "every": [yes], "chunk": [yes]}.get(
                k, r.choice([[constraints.single_flip_contiguous], [constraints.contiguous, bounds]]))
            out = self.follow(self.chain(plan, prop, cons, acc), enc_)
        elif k in ("recom", "recom-region"):
            kw = {}
            if k == "recom-region":
                kw["region_surcharge"] = r.choice([{"county": 0.5}, {"muni": 2.0, "county": 1.0}, {"county": 1.5}])
            m = r.choice([T.bipartition_tree, T.bipartition_tree, partial(T.bipartition_tree, spanning_tree_fn=T.uniform_spanning_tree), T.bipartition_tree_random,
                          partial(T.bipartition_tree, balance_edge_fn=T.find_balanced_edge_cuts_contraction)])
            out = [enc_(p) for p in self.chain(plan, partial(proposals.recom, pop_col="pop", pop_target=ideal, epsilon=0.4, node_repeats=r.choice([1, 2, 3]), method=m, **kw), acc=acc, n=8)]
        elif k == "rrecom":
            out = [enc_(p) for p in self.chain(plan, partial(proposals.reversible_recom, pop_col="pop", pop_target=ideal, epsilon=0.4, M=30, repeat_until_valid=bool(r.randrange(2))), n=6)]
        elif k in ("treepart", "seedpart"):
            n = r.choice([2, 3, 4])
            f = T.recursive_tree_part if k == "treepart" else T.recursive_seed_part
            out = []
            for _ in range(2):
                try:
                    a = f(G, list(range(n)), len(self.nodes) / n, "pop", 0.5)
                    out.append([a[x] for x in self.nodes])
                except Exception as e:  # noqa
                    out.append([exc_name(e)])
        elif k == "random":
            out = [enc_(self.cls.from_random_assignment(G, 2, 0.5, "pop")) for _ in range(3)]
        elif k in ("bursts", "vbursts", "tilted", "anneal"):
            o = SingleMetricOptimizer(proposals.propose_random_flip, [constraints.contiguous], plan, lambda p: len(p["cut_edges"]), maximize=bool(r.randrange(2)))
            if k == "bursts":
                run = o.short_bursts(3, 4)
            elif k == "vbursts":
                run = o.variable_length_short_bursts(12, 2)
            elif k == "tilted":
                run = o.tilted_run(12, 0.3)
            else:
                run = o.simulated_annealing(12, o.jumpcycle_beta_function(2, 4) if hasattr(o, "jumpcycle_beta_function") else (lambda t: t / 6), beta_magnitude=1)
            out = [enc_(p) for p in run] + [enc_(o.best_part)]
        elif k == "gingles":
            g = Gingleator(proposals.propose_random_flip, [constraints.contiguous], plan, minority_pop_col="min", total_pop_col="tot", threshold=0.4,
                           score_function=r.choice([Gingleator.reward_partial_dist, Gingleator.num_opportunity_dists]))
            out = [enc_(p) for p in g.short_bursts(4, 3)]
        elif k in ("tree", "utree"):
            out = []
            for _ in range(4):
                t = T.random_spanning_tree(G, r.choice([None, {"county": 0.7}])) if k == "tree" else T.uniform_spanning_tree(G)
                out.append(sorted(sorted(self.nodes.index(x) for x in e) for e in t.edges))
        else:
            out = [enc_(p) for p in self.chain(plan, partial(proposals.spectral_recom, weight_type="random"), [yes], n=6)]
        nxt = random.random()
        return out, nxt


def noise(r, jobs, light=False):
    """Things done before a run is seeded."""
    random.seed(r.randrange(10**9))
    np.random.seed(r.randrange(10**6))
    [random.random() for _ in range(r.randrange(50))]
    junk = [object() for _ in range(r.randrange(2000))]
    j = r.choice(jobs)
    p = j.new_plan()
    for _ in range(r.randrange(4)):
        q = p
        for _ in range(r.randrange(5)):
            x, y = r.choice(list(j.G.edges))
            q = q.flip({x: q.assignment.mapping[y]})
            for u in r.sample(sorted(q.updaters), r.randrange(4)):
                q[u]
    if r.random() < 0.5:
        j2 = r.choice(jobs)
        T.random_spanning_tree(j2.G)
        T.uniform_spanning_tree(j2.G)
        try:
            proposals.spectral_recom(j2.new_plan(), weight_type="random")
        except Exception:  # noqa
            pass
    del junk
    if r.random() < 0.3:
        gc.collect()


def child(seed, numbers, mode):
    jobs = {j: Job(seed, j) for j in numbers}
    r = random.Random(f"noise-{seed}-{mode}")
    order = list(numbers)
    if mode:
        r.shuffle(order)
    res = {j: [] for j in numbers}

    def one(j, reuse):
        J = jobs[j]
        try:
            with guard(60):
                out, nxt = J.run(reuse)
            res[j].append(dict(exc="", out=out, next=nxt, graph=int(snapshot(J.G) == J.before), kind=J.kind, where="process %d, run %d" % (mode, len(res[j]) + 1)))
        except Exception as e:  # noqa
            res[j].append(dict(exc=exc_name(e), detail=trace_of(e), kind=J.kind))
    for j in order:
        if mode:
            noise(r, list(jobs.values()))
        one(j, False)
    if mode:
        for j in order[::-1]:
            noise(r, list(jobs.values()))
            one(j, r.random() < 0.5)
    json.dump(res, sys.stdout)


def main():
    if sys.argv[1] == "child":
        return child(int(sys.argv[2]), json.loads(sys.argv[3]), int(sys.argv[4]))
    seed, count, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out, budget=150 if count < 1000 else 1500)
    ids = {}
    num = lambda x: ids.setdefault(json.dumps(x), len(ids) + 1)
    B = 46
    for b in range(0, count, B):
        if not D.more():
            break
        numbers = list(range(b, b + B))
        got = []
        for mode in (0, 1):
            p = subprocess.run([sys.executable, "-m", "harness.repro", "child", str(seed), json.dumps(numbers), str(mode)], capture_output=True, text=True, timeout=900)
            if p.returncode:
                raise RuntimeError(p.stderr[-3000:])
            got.append(json.loads(p.stdout))
        for j in map(str, numbers):
            ev = got[0][j] + got[1][j]
            tags = {"job-" + ev[0]["kind"]}
            for e in ev:
                if not e["exc"]:
                    if len({json.dumps(x) for x in e["out"]}) > 1:
                        tags.add("moves")
                    e["steps"] = len(e["out"])
                    e["out"] = [num(x) for x in e["out"]]
                    e["next"] = num(e["next"])
            D.add(dict(ev=ev, tags=sorted(tags)))
    D.save()


if __name__ == "__main__":
    main()
