"""Flip proposals with all their random outcomes:
python -m harness.proposals SEED COUNT OUT"""
import random, sys
from .base import *
from . import rng as R_
from gerrychain import proposals as P
from gerrychain.proposals import proposals as PP
from gerrychain.updaters import cut_edges_by_part

FUNS = dict(random=P.propose_random_flip, reversible=PP.slow_reversible_propose, bi=PP.slow_reversible_propose_bi,
            chunk=P.propose_chunk_flip, every=PP.propose_flip_every_district, any=PP.propose_any_node_flip)


def dist(fn, seed, limit=6000):
    """Exact distribution, else frequencies; and the tolerance for them."""
    try:
        R = R_.explore(fn, limit=limit)
    except R_.TooMany:
        R = None
    if R is None or R.floats > 1:
        return R_.sample(fn, 20000, seed), 250
    return R, 0


def episode(rng):
    n, E = shape(rng, 2, rng.choice([4, 5, 6, 7]))
    k = rng.choice([x for x in (1, 2, 2, 2, 3, 4) if x <= n])
    L, DL = node_labels(rng, n), part_labels(rng, k)
    G = build(rng, n, E, L)
    a = rand_asg(rng, n, k)
    p = fresh_class()(G, {L[v]: DL[x - 1] for v, x in enumerate(a)}, {"cut_edges_by_part": cut_edges_by_part})
    pd = {x: i + 1 for i, x in enumerate(DL)}
    ev, tags = [], {"k=%d" % k}
    hist = []
    for step in range(rng.randint(1, 3)):
        hist.append(p)
        cuts = [1 for u, v in E if a[u - 1] != a[v - 1]]
        names = ["random", "any"]
        if cuts:
            names += ["reversible", "bi", "chunk"]
            per = 1
            for d in range(1, k + 1):
                c = 2 * len([1 for u, v in E if (a[u - 1] == d) != (a[v - 1] == d)])
                per *= max(c, 1)
            if per <= 300:
                names.append("every")
        else:
            tags.add("no-cut-edges")
        for name in names:
            if len(names) > 3 and rng.random() < 0.3:
                continue
            tags.add(name)
            fn = FUNS[name]
            same = []

            def once():
                q = fn(p)
                same.append(q is p)
                return tuple(pd[q.assignment.mapping[x]] if q.assignment.mapping[x] in pd else 99 for x in L)
            e = dict(k="dist", prop=name, a=list(a))
            try:
                with guard(60):
                    D, tol = dist(once, 1)
                kept = all(tuple(pd[q.assignment.mapping[x]] for x in L) == tuple(b) and
                           all(q.assignment.parts.get(DL[d]) == frozenset(L[v] for v in range(n) if b[v] == d + 1) or
                               not [1 for v in range(n) if b[v] == d + 1] and not q.assignment.parts.get(DL[d])
                               for d in range(k))
                           for q, b in ((p, a),))
                e.update(outs=[[list(o), f.numerator, f.denominator] for o, f in sorted(D.out.items())],
                         tol=tol, same=int(all(same)), kept=int(kept), runs=D.runs, exc="")
                ev.append(e)
            except Exception as x:  # noqa
                ev.append(dict(e, exc=exc_name(x), detail=trace_of(x)))
                return dict(n=n, E=[list(x) for x in E], k=k, ev=ev, tags=sorted(tags)), False
        # on to another plan
        f = {v: rng.randint(1, k) for v in rng.sample(range(1, n + 1), rng.randint(1, 2))}
        if rng.random() < 0.25:
            d = rng.randint(1, k)
            f = {v: rng.randint(1, k) for v in range(1, n + 1) if a[v - 1] == d} or f
        p = p.flip({L[v - 1]: DL[d - 1] for v, d in f.items()})
        a = [f.get(v + 1, x) for v, x in enumerate(a)]
    return dict(n=n, E=[list(x) for x in E], k=k, ev=ev, tags=sorted(tags)), True


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    D = Driver(out, budget=60.0 if count < 5000 else 600)
    for j in range(count):
        if not D.more():
            break
        ep, ok = episode(random.Random(f"proposals-{seed}-{j}"))
        D.failed += not ok
        D.add(ep)
    D.save()


if __name__ == "__main__":
    main()
