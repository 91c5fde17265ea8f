"""Which updaters plans report: python -m harness.updaters MODE SEED COUNT OUT
MODE own: plans made with use_default_updaters=False, or each with a class of its own
MODE leak: two plans of one class that name an updater alike (known finding)"""
import random, sys
from .base import *


def main():
    mode, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    D = Driver(out)
    for j in range(count):
        if not D.more():
            break
        rng = random.Random(f"updaters-{mode}-{seed}-{j}")
        n, E = shape(rng, 2, 5)
        L = node_labels(rng, n)
        G = build(rng, n, E, L)
        plans = []

        def fn(x, i):
            """Function i, registered as x."""
            return {6: lambda p: 100 if p.parent is None else p.parent[x] + 1,
                    7: lambda p: 50 + (p.parent is None),
                    8: lambda p: 70 + len(p.flips or ()),
                    9: lambda p: next((201 + j for j, q in enumerate(plans) if q is p), 0)}.get(i, lambda p: i)
        ev = []
        P = fresh_class()
        own = []

        def make(ups, defaults=True, cls=None):
            try:
                plans.append((cls or P)(G, {x: i % 2 for i, x in enumerate(L)}, {x: fn(x, i) for x, i in ups}, use_default_updaters=defaults))
                ev.append(dict(k="make", ups=[list(u) for u in ups], exc=""))
                own.append(dict(ups))
            except Exception as e:  # noqa
                ev.append(dict(k="make", exc=exc_name(e), detail=trace_of(e)))

        def read(i, x):
            try:
                ev.append(dict(k="read", p=i + 1, x=x, got=plans[i][x], exc=""))
            except Exception as e:  # noqa
                ev.append(dict(k="read", p=i + 1, x=x, exc=exc_name(e)))
        if mode == "leak":
            make([("x", 1)])
            make([("x", 2)])
            read(0, "x")
        else:
            for _ in range(rng.randint(2, 24)):
                c = rng.random()
                if c < 0.2 or not plans:
                    ups = [(x, rng.randrange(10)) for x in ("x", "y", "z", "cut") if rng.random() < 0.6]
                    if rng.random() < 0.5:
                        make(ups, defaults=False)
                    else:
                        make(ups, cls=fresh_class())
                elif c < 0.5:
                    i = rng.randrange(len(plans))
                    calm = rng.random() < 0.25      # nothing moves
                    f = {x: plans[i].assignment[x] if calm or rng.random() < 0.3 else rng.randrange(2) for x in rng.sample(L, rng.choice([0, 1, 1, 1, min(2, n)]))}
                    try:
                        plans.append(plans[i].flip(f))
                    except Exception as e:  # noqa
                        ev.append(dict(k="flip", p=i + 1, n=len(f), exc=exc_name(e), detail=trace_of(e)))
                        continue
                    own.append(own[i])
                    ev.append(dict(k="flip", p=i + 1, n=len(f), exc=""))
                else:
                    read(rng.randrange(len(plans)), rng.choice(["x", "y", "z", "cut"]))
        D.add(dict(ev=ev, tags=[mode]))
    D.save()


if __name__ == "__main__":
    main()
