"""Acceptance rules and schedules: python -m harness.accept KIND SEED COUNT OUT     KIND: cut runs beta"""
import math, random, sys
from fractions import Fraction
import numpy as np
from .base import *
from . import rng as R_
from gerrychain import MarkovChain
from gerrychain.accept import always_accept, cut_edge_accept
from gerrychain.optimization import SingleMetricOptimizer

ONE = 16384
LN2 = math.log(2)


def dist(fn, ev):
    """Outcomes of fn with probabilities; sampled if the code draws in some other way."""
    try:
        D = R_.explore(fn, limit=600, floats=R_.lazy)
        tol = 0
    except (R_.TooMany, R_.Concrete):
        D = R_.sample(fn, 12000, 7)
        tol = 450
    return D, tol


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()

    def do(self, fn, **kw):
        try:
            with guard(60):
                r = fn()
            self.ev.append(dict(kw, exc="", **r))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise


def any_asg(rng, n, k):
    """Now and then all nodes lie in one district: there are no cut edges."""
    return [rng.randint(1, k)] * n if rng.random() < 0.15 else rand_asg(rng, n, k)


def a_plan(rng, lo=2, hi=7):
    n, E = shape(rng, lo, hi)
    k = rng.randint(1, min(4, n))
    L, DL = node_labels(rng, n), part_labels(rng, k)
    a = rand_asg(rng, n, k)
    p = fresh_class()(build(rng, n, E, L), {L[v]: DL[a[v] - 1] for v in range(n)})
    return n, E, k, L, DL, a, p


def ncut(E, a):
    return sum(a[u - 1] != a[v - 1] for u, v in E)


def cut(R):
    """cut_edge_accept, alone and in a chain."""
    rng = R.rng
    n, E, k, L, DL, a0, p0 = a_plan(rng)
    T = rng.choice([1, 1, 2, 3])
    orphan = p0
    if rng.random() < 0.15:         # districts emptied: the start has no cut edges
        a0 = [rng.randint(1, k)] * n
        p0 = p0.flip({L[v]: DL[a0[v] - 1] for v in range(n)})
    rule = cut_edge_accept if rng.random() < 0.9 else always_accept
    name = "cut" if rule is cut_edge_accept else "always"
    if T == 1:                      # the rule alone, parent alive
        steps = [(any_asg(rng, n, k) if rng.random() < 0.6 else a0)]
        q = p0.flip({L[v]: DL[steps[0][v] - 1] for v in range(n) if rng.random() < 0.9 or steps[0][v] != a0[v]})
        R.do(lambda: dict(p=int(dist(lambda: bool(rule(orphan)), R.ev)[0].out.get(True, 0) * ONE)), k="orphan", rule=name)
        R.do(lambda: (lambda D, tol: dict(outs=[[[int(o)], int(x * ONE)] for o, x in D.out.items()], tol=tol))(
            *dist(lambda: bool(rule(q)), R.ev)), k="runs", rule=name, s=[ncut(E, a0), ncut(E, steps[0])], max=0, p16=0, beta=[], mag=0)
        R.tags.add("single")
        return
    # every proposal goes to a fixed plan, so that its cut edges do not depend on what was accepted before
    steps = [any_asg(rng, n, k) for _ in range(T)]

    def once():
        i = [0]
        made = {}

        def prop(p):
            b = steps[i[0]]
            i[0] += 1
            q = p.flip({L[v]: DL[b[v] - 1] for v in range(n)})
            made[id(q)] = (i[0], q)
            return q
        ch = MarkovChain(prop, lambda p: True, rule, p0, T + 1)
        flags = []
        for j, s in enumerate(ch):
            if j:
                flags.append(int(made.get(id(s), (0,))[0] == j))
        return tuple(flags)
    R.do(lambda: (lambda D, tol: dict(outs=[[list(o), int(x * ONE)] for o, x in D.out.items()], tol=tol))(*dist(once, R.ev)),
         k="runs", rule=name, s=[ncut(E, a0)] + [ncut(E, b) for b in steps], max=0, p16=0, beta=[], mag=0)
    R.tags.add("chain")


def runs(R):
    """Tilted runs and annealing through the public runs."""
    rng = R.rng
    n, E, k, L, DL, a0, p0 = a_plan(rng, 2, 5)
    rule = rng.choice(["tilted", "tiltedburst", "anneal", "anneal"])
    T = rng.choice([1, 2, 3, 4])
    top = rng.choice([2, 3, 6])
    s = [rng.randint(0, top) for _ in range(T + 1)]
    maxi = rng.random() < 0.5
    p16 = rng.choice([0, 1, 4, 8, 15, 16])
    beta = [rng.randint(0, 4) for _ in range(T + 2)]
    if rng.random() < 0.3:
        beta = [rng.choice([0, 4])] * (T + 2)
    mag = rng.choice([0, 1, 2, 4, 4, 8])
    unit = LN2 if rule == "anneal" else rng.choice([1, 0.5, -0.0 + 3])
    indexer = rng.choice(["step", "step", "number"])
    user_step = rng.random() < 0.2
    form = rng.choice([float, np.float64]) if rule == "anneal" else rng.choice([float, np.float64, lambda x: x])
    sc = {}
    past = rng.choice([0, 0, 0, 1, 2])      # flips before the run starts

    def once():
        p = fresh_class()(p0.graph, {x: p0.assignment.mapping[x] for x in p0.graph.nodes},
                          {indexer: (lambda q: 0 if q.parent is None else q.parent[indexer] + 1)} if user_step else {})
        for _ in range(past):
            p = p.flip({L[0]: DL[0]})
        i, made = [0], {id(p): (0, p)}

        def prop(q):
            i[0] += 1
            r = q.flip({L[0]: DL[i[0] % k]})
            made[id(r)] = (i[0], r)
            return r

        def score(q):
            return form(s[made[id(q)][0]] * unit)
        kw = dict(step_indexer=indexer) if indexer != "step" or user_step else {}
        o = SingleMetricOptimizer(prop, lambda q: True, p, score, maximize=maxi, **kw)
        if rule == "tilted":
            g = o.tilted_run(T + 1, p16 / 16)
        elif rule == "tiltedburst":
            g = o.tilted_short_bursts(T + 1, 1, p16 / 16)
        else:
            bf = lambda t: beta[t] / 4 if 0 <= t < len(beta) else 1 / 0
            kw = {} if mag == 4 and i[0] == 0 and user_step else dict(beta_magnitude=mag / 4)
            g = o.simulated_annealing(T + 1, bf, **kw)
        flags = []
        for j, q in enumerate(g):
            if j:
                flags.append(int(made[id(q)][0] == j))
        return tuple(flags)
    R.do(lambda: (lambda D, tol: dict(outs=[[list(o), int(x * ONE)] for o, x in D.out.items()], tol=tol))(*dist(once, R.ev)),
         k="runs", rule="anneal" if rule == "anneal" else "tilted", s=s, max=int(maxi), p16=p16, beta=beta, mag=mag)
    R.tags |= {rule, "maximize" if maxi else "minimize"}


def beta(R):
    rng = R.rng
    O = SingleMetricOptimizer
    kind = rng.choice(["jump", "linear", "linearjump", "logit", "logitjump"])
    dur = lambda: rng.choice([0, 1, 2, 3, 5, 7, 400 if "logit" in kind else 40])
    while True:
        hot, cool, cold = dur(), dur(), dur()
        if hot + cold + (0 if kind == "jump" else cool) > 0:
            break
    fn = {"jump": lambda: O.jumpcycle_beta_function(hot, cold), "linear": lambda: O.linearcycle_beta_function(hot, cool, cold),
          "linearjump": lambda: O.linear_jumpcycle_beta_function(hot, cool, cold), "logit": lambda: O.logitcycle_beta_function(hot, cool, cold),
          "logitjump": lambda: O.logit_jumpcycle_beta_function(hot, cool, cold)}[kind]()
    c = hot + cold + {"jump": 0, "linear": 2 * cool, "logit": 2 * cool}.get(kind, cool)
    edges = [0, hot, hot + cool, c - cool, c]
    steps = sorted({max(0, e + d + m * c) for e in edges for d in (-2, -1, 0, 1, 2) for m in (0, 1, 5)} | {rng.randrange(3 * c + 1) for _ in range(20)})
    rng.shuffle(steps)

    def val(t):
        def f():
            v = float(fn(t))
            vn, vd = rat(v, 1000)
            on, od = 0, 0
            if "logit" in kind and 0 < v < 1:
                on, od = rat(math.exp(10 * v - 5), 500)
            return dict(vn=vn, vd=vd, on=on, od=od)
        return f
    for t in steps:
        R.do(val(t), k="beta", kind=kind, hot=hot, cool=cool, cold=cold, step=t)
    R.tags.add("beta:" + kind)


def main():
    kind, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out)
    for j in range(count):
        if not D.more():
            break
        R = Run(random.Random(f"accept-{kind}-{seed}-{j}"))
        try:
            globals()[kind](R)
        except Exception:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
