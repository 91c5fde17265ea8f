"""Constraints and bounds: python -m harness.bounds SEED COUNT OUT"""
import random, sys
import numpy as np
from .base import *
from gerrychain import MarkovChain, Partition
from gerrychain import constraints as C
from gerrychain.updaters import Tally
from gerrychain.constraints import Validator


class Held:
    """Stands for a plan: a chain needs no more of its states."""
    parent = None


class Run:
    def __init__(self, rng):
        self.rng, self.ev, self.tags = rng, [], set()

    def ask(self, fn, **kw):
        """Records the boolean answer of fn()."""
        try:
            with guard(20):
                a = fn()
            if not isinstance(a, (bool, np.bool_)):
                raise TypeError("not a boolean")
            self.ev.append(dict(kw, ans=int(bool(a)), exc=""))
        except Exception as e:  # noqa
            self.ev.append(dict(kw, exc=exc_name(e), detail=trace_of(e)))
            raise

    def num(self, lo=-12, hi=12):
        r = self.rng
        x = r.randint(lo * 4, hi * 4) / 4 if r.random() < 0.3 else r.randint(lo, hi)
        return r.choice([x, x, np.float64(x), float(x)])

    def fixed(self):
        rng = self.rng
        for _ in range(8):
            lo, hi = sorted([self.num(), self.num()])
            vals = [self.num() for _ in range(rng.randint(1, 5))]
            if rng.random() < 0.5:    # at the bounds
                vals[rng.randrange(len(vals))] = rng.choice([lo, hi])
                if rng.random() < 0.5:
                    vals = [min(max(v, lo), hi) for v in vals]
            form = rng.choice([lambda: list(vals), lambda: tuple(vals), lambda: dict(enumerate(vals)).values(), lambda: set(vals), lambda: np.array(vals), lambda: iter(vals), lambda: (v for v in vals)])
            # the function sees what the bound was called with
            way, args, opts = rng.choice([("plan", ("plan",), {}), ("plan, 3", ("plan", 3), {}), ("plan, x=2", ("plan",), dict(x=2))])

            def told(g):
                def f(p, *a, **k):
                    if ((p,) + a, k) != (args, opts):
                        raise AssertionError("called otherwise than " + way)
                    return g()
                return f
            b = C.Bounds(told(form), (lo, hi) if rng.random() < 0.8 else [lo, hi])
            self.ask(lambda: b(*args, **opts), k="bounds", lo=enc(lo), hi=enc(hi), vals=[enc(v) for v in vals])
            v, bd = self.num(), self.num()
            if rng.random() < 0.4:
                v = bd
            self.ask(lambda: C.UpperBound(told(lambda: v), bd)(*args, **opts), k="upper", v=enc(v), b=enc(bd))
            self.ask(lambda: C.LowerBound(told(lambda: v), bd)(*args, **opts), k="lower", v=enc(v), b=enc(bd))

    def selfconf(self):
        rng = self.rng
        objs = []
        for o in range(rng.randint(1, 4)):
            kind = rng.choice(["upper", "lower", "range"])
            f = lambda p: p
            eps = rng.choice([0, 0.25, 1, 2.5])
            j = rng.choice([0, 1, 2, 4, 8])
            if kind == "upper":
                b = C.SelfConfiguringUpperBound(f)
            elif kind == "lower":
                b = C.SelfConfiguringLowerBound(f, epsilon=eps)
                if rng.random() < 0.3:     # default slack: values in steps larger than it
                    eps, b = 0, C.SelfConfiguringLowerBound(f)
            else:
                b = C.WithinPercentRangeOfBounds(f, 12.5 * j)
            objs.append((o, kind, b, eps, j))
        f0 = rng.choice([0, 0.0, self.num(), self.num(), -self.num()])
        drift = rng.random() < 0.5      # values that creep along the bound, past it and back
        last = {}
        for i in range(rng.randint(2, 18)):
            o, kind, b, eps, j = rng.choice(objs)
            near = [f0, f0 - eps, f0 + f0 * j / 8, f0 - f0 * j / 8, f0 + 0.25, f0 - 0.25, 0]
            if drift:
                w = last.get(o, f0)
                near = [f0 + f0 * j / 8, f0 - f0 * j / 8, f0 - eps]
                near += [x + d for x in near for d in (0.25, -0.25, 0.5, -0.5)] + [w + w * j / 8, w - w * j / 8, w - eps, w + 0.25, w - 0.25] * 2
            v = f0 if i < len(objs) and rng.random() < 0.6 else rng.choice(near + [self.num()])
            if enc(v) == INEXACT:
                v = f0
            last[o] = v
            self.ask(lambda: b(v), k="self", o="o%d" % o, kind=kind, v=enc(v), eps=enc(eps), pct=j)

    def plans(self):
        """Population rules on plans and their flips."""
        rng = self.rng
        n, E = shape(rng, 2, 9)
        k = rng.choice([x for x in (1, 2, 2, 3, 4, 4) if x <= n])
        L, DL = node_labels(rng, n), part_labels(rng, k)
        top = rng.choice([1, 3, 20])
        pops = [rng.randint(1, top) for _ in range(n)]
        if k == 3:
            pops[0] += (-sum(pops)) % 3
        col = rng.choice(["population", "POP", "tot"])
        G = build(rng, n, E, L, [{"x": pops[v]} for v in range(n)])
        p = fresh_class()(G, {L[v]: DL[x - 1] for v, x in enumerate(rand_asg(rng, n, k))},
                          {col: Tally("x", alias=col)})
        tal = lambda q: [enc(q[col][d], 1) for d in DL]
        pct = rng.choice([0, 1, 2, 4, 8, 16])
        try:
            pden = 16
            if rng.random() < 0.3:       # within one percent when nothing is said
                pct, pden = 1, 100
                con = C.within_percent_of_ideal_population(p, **({} if col == "population" else dict(pop_key=col)))
            elif col == "population" and rng.random() < 0.5:
                con = C.within_percent_of_ideal_population(p, pct / 16)
            else:
                con = C.within_percent_of_ideal_population(p, pct / 16, pop_key=col)
        except Exception as e:  # noqa
            self.ev.append(dict(k="pop", exc=exc_name(e), detail=trace_of(e)))
            raise
        t0 = tal(p)
        self.ask(lambda: C.no_vanishing_districts(p), k="vanish", sizes=[len(p.parts[d]) for d in DL])
        self.ask(lambda: con(p), k="pop", t0=t0, t=t0, pct=pct, pden=pden)
        for _ in range(rng.randint(2, 8)):
            q = p.flip({rng.choice(L): rng.choice(DL) for _ in range(rng.randint(1, 2))})
            if rng.random() < 0.2:
                d, e = rng.choice(DL), rng.choice(DL)
                q = p.flip({x: e for x in p.parts[d]})
            t = tal(q)
            self.ask(lambda: con(q), k="pop", t0=t0, t=t, pct=pct, pden=pden)
            num, den, arg = rng.choice([(1, 8, 0.125), (1, 4, 0.25), (1, 2, 0.5), (0, 1, 0), (1, 4, 25), (1, 2, 50), (1, 8, 12.5),
                                        (1, 100, 1), (2, 1, 200)])
            if rng.random() < 0.2:
                num, den, arg = 1, 10, None
            more = [] if arg is None else [arg]
            self.ask(lambda: C.districts_within_tolerance(q, *([] if col == "population" and not more else [col]), *more), k="tol", t=t, num=num, den=den)
            self.ask(lambda: C.no_vanishing_districts(q), k="vanish", sizes=[len(q.parts[d]) for d in DL])
            try:
                v = C.deviation_from_ideal(q, *([] if col == "population" and rng.random() < 0.5 else [col]))
                self.ev.append(dict(k="dev", t=t, val=[rat(v[d], 400) for d in DL], exc=""))
            except Exception as e:  # noqa
                self.ev.append(dict(k="dev", exc=exc_name(e), detail=trace_of(e)))
                raise
            if rng.random() < 0.5:
                p = q

    RES = {1: True, 0: False, 2: np.bool_(True), 3: np.bool_(False), 4: None, 5: 1, 6: "yes", 7: 0, 8: np.int64(1), 9: [], 10: 0.0, 11: ""}

    def validator(self):
        rng = self.rng
        for _ in range(6):
            m = rng.randint(0, 4)
            rs = [rng.choice([1, 1, 1, 2, 0, 3] + ([rng.randint(4, 11)] if rng.random() < 0.4 else [])) for _ in range(m)]
            cs = [self.con(i, r) for i, r in enumerate(rs)]
            try:
                with guard(20):
                    V = Validator(rng.choice([list, list, tuple, iter, lambda x: (y for y in x)])(cs))
                    got = repr(V("plan"))
                    if rng.random() < 0.5:         # and again
                        got = repr(V("plan"))
                got = {"np.True_": "True", "np.False_": "False"}.get(got, got)
            except Exception as e:  # noqa
                got = exc_name(e)
            self.ev.append(dict(k="valid", rs=rs, got=got, exc=""))
        for _ in range(6):
            m = rng.randint(1, 4)
            rs = [rng.choice([1, 1, 1, 2, 0, 3]) for _ in range(m)]
            init, other = Held(), Held()
            o = rng.choice([None, 1, 0])       # what the constraints say about other plans
            cs = [self.con(i, r, lambda p: p is init, o) for i, r in enumerate(rs)]
            form = rng.randrange(3)
            arg = Validator(cs) if form == 0 else rng.choice([list, tuple, iter, lambda x: (y for y in x)])(cs)
            if form == 2:
                rs, cs = rs[:1], cs[:1]
                arg = cs[0]
            named, msg = [], ""
            late = rng.random() < 0.4
            try:
                with guard(20):
                    if late:
                        ch = MarkovChain(lambda p: rng.choice([other, p]), [self.con(9, 1)], lambda p: True, init, 3)
                        iter(ch)
                        for _ in range(rng.randint(0, 4) if rng.random() < 0.7 else 0):
                            next(ch, None)
                        ch.constraints = arg
                    else:
                        MarkovChain(lambda p: p, arg, lambda p: True, init, 3)
                got = "ok"
            except Exception as e:  # noqa
                got, msg = exc_name(e), str(e)
            named = [i + 1 for i in range(len(rs)) if "rule%dx" % i in msg]
            self.ev.append(dict(k="construct", rs=rs, got=got, named=named, late=int(late), exc=""))

    def con(self, i, r, here=lambda p: True, other=None):
        def f(p):
            return self.RES[r if here(p) or other is None else other]
        f.__name__ = "rule%dx" % i
        return f


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    D = Driver(out)
    for j in range(count):
        if not D.more():
            break
        R = Run(random.Random(f"bounds-{seed}-{j}"))
        kind = ["fixed", "selfconf", "selfconf", "plans", "validator"][j % 5]
        R.tags.add(kind)
        try:
            getattr(R, kind)()
        except Exception as e:  # noqa
            if not (R.ev and R.ev[-1]["exc"]):
                raise
            D.failed += 1
        D.add(dict(ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
