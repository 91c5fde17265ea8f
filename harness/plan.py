"""Histories of plans: python -m harness.plan FOCUS SEED COUNT OUT [SCENARIOS]

Builds plans, flips them, drops parent links and reads updaters in random
orders, and records what the public interface reports.  With SCENARIOS (lines
of JSON printed by TLC from PlanGen.tla) the given operations are replayed.
"""
import json, math, random, sys, tempfile
import numpy as np
import pandas
from .base import *

from gerrychain import Graph, Partition, GeographicPartition
from gerrychain.grid import Grid
from gerrychain import updaters as U
from gerrychain.partition.assignment import Assignment, get_assignment
from gerrychain.updaters import flows as FL
from gerrychain.updaters.locality_split_scores import LocalitySplits
from gerrychain.metrics import polsby_popper
from gerrychain import constraints as C
from gerrychain.constraints import compactness as CC

FIX4PI = 4 * math.pi
LOCS = ["num_parts", "num_pieces", "naked_boundary", "num_split_localities",
        "shannon_entropy", "power_entropy"]


class Stop(Exception):
    pass


def per(x, unit):
    """A number counted in the given unit, exactly."""
    if unit == 1 or x is None or x != x or x in (math.inf, -math.inf):
        return x
    return Fraction(x if isinstance(x, int) else float(x)) / unit if not isinstance(x, np.integer) else Fraction(int(x)) / unit


class Gr:
    """A labelled graph with attributes, and its description for the trace."""

    def __init__(self, rng, focus, n=None, E=None, L=None):
        if n is None:
            big = rng.random()
            lo, hi = (21, 40) if big < 0.01 and focus not in ("C16", "C05", "C15") else (11, 20) if big < 0.06 else (2, 10)
            n, E = shape(rng, lo, hi, connected=rng.random() < 0.7)
        self.n, self.E = n, [tuple(e) for e in E]
        self.L = L or node_labels(rng, n)
        self.idx = {x: i + 1 for i, x in enumerate(self.L)}
        num = rng.choice(["int", "int", "quarter", "numpy", "npfloat"])
        lo = rng.choice([0, 0, -9])

        def val(top, lo=0):
            x = rng.randint(lo, top)
            if num == "quarter":
                return x + rng.choice([0, 0.25, 0.5])
            if num == "numpy":
                return np.int64(x)
            if num == "npfloat":
                return np.float64(x)
            return x
        nan = rng.random() < 0.35
        zero = rng.random() < 0.1
        self.cols = [[val(40, lo) for _ in range(n)] for _ in range(3)]
        if nan:
            for c in (0, 1):
                for v in range(n):
                    if rng.random() < 0.3:
                        self.cols[c][v] = rng.choice([math.nan, np.nan, float("nan")])
        # the numbers are counted in units, now and then in very large ones
        self.unit = rng.choice([1, 1, 1, 10**9 + 7])
        self.raw = self.cols
        self.cols = [[x * self.unit for x in c] for c in self.cols]
        # votes: never negative
        self.votes = [[(0 if rng.random() < 0.25 else rng.randint(0, 30)) for _ in range(n)] for _ in range(4)]
        if rng.random() < 0.3:
            self.votes[1] = list(self.votes[0])
        if focus == "C15" and rng.random() < 0.35:    # equal totals: shares are exact, ties with the mean occur
            t = rng.choice([4, 8, 2])
            for v in range(n):
                self.votes[0][v] = self.votes[2][v] = rng.randint(0, t)
                self.votes[1][v] = self.votes[3][v] = t - self.votes[0][v]
        elif rng.random() < 0.2:
            for j in range(4):
                self.votes[j] = [x + rng.choice([0, 0.5]) for x in self.votes[j]]
        if rng.random() < 0.2:
            for v in range(n):
                if rng.random() < 0.3:
                    self.votes[0][v] = math.nan
        self.area = [(rng.randint(0, 8) if zero else rng.randint(1, 9)) for _ in range(n)]
        if rng.random() < 0.3:
            self.area = [x + rng.choice([0, 0.5]) for x in self.area]
        self.rim = [1 if rng.random() < 0.6 else 0 for _ in range(n)]
        self.bp = [rng.choice([0, 1, 2, 3, 1.5]) if r or rng.random() < 0.3 else 0 for r in self.rim]
        self.w = {e: rng.choice([0, 1, 1, 2, 0.5]) for e in self.E}
        nc = rng.randint(1, max(1, n // 2 + 1))
        self.cty = [[rng.randint(1, nc) for _ in range(n)], [rng.randint(1, 2) for _ in range(n)]]
        self.cname = [self.names(rng, 24), self.names(rng, 24)]
        self.G = build(rng, n, self.E, self.L,
                       [self.attrs(v) for v in range(n)],
                       {e: {"shared_perim": self.w[e]} for e in self.E})
        self.frozen = None

    @staticmethod
    def names(rng, m):
        c = rng.randrange(7)
        if c == 6:
            return ["x", "1", 1, None, 2, "2", "None", 1.5, "", -1, (), 3] + ["y%d" % i for i in range(m)]
        if c == 0:
            return ["C%d" % i for i in range(m)]
        if c == 1:
            return list(range(-1, m - 1))
        if c == 2:
            return ["x", ""] + ["x%d" % i for i in range(m - 2)]
        if c == 3:
            return ["no", False, True] + ["x%d" % i for i in range(m - 3)]
        if c == 4:
            return [i / 2 - 0.5 for i in range(m)]
        return [(i, "t") for i in range(m)]

    def attrs(self, v):
        # the rim flag comes as a boolean or as an integer
        return dict(A=self.cols[0][v], B=self.cols[1][v], C=self.cols[2][v],
                    **{"V%d" % j: self.votes[j][v] * self.unit for j in range(4)}, POP=1 + (7 * v) % 5,
                    area=self.area[v], boundary_node=bool(self.rim[v]),
                    **({"boundary_perim": self.bp[v]} if self.rim[v] or v % 2 else {}),
                    county=self.cname[0][self.cty[0][v]], muni=self.cname[1][self.cty[1][v]])

    def header(self, scale=SCALE):
        return dict(n=self.n, E=[list(e) for e in self.E], w=[enc(self.w[e]) for e in self.E],
                    rim=self.rim, bp=[enc(x) for x in self.bp],
                    cols=[[enc(x) for x in c] for c in self.raw] +
                         [[enc(x, 2) for x in c] for c in self.votes] + [[enc(x) for x in self.area]],
                    cty=self.cty)


class GridGr(Gr):
    """A grid as the library builds it, described from its dimensions alone."""

    def __init__(self, rng):
        self.dim = m, n = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (4, 3), (1, 4), (5, 1), (3, 4), (5, 4)])
        self.diag = rng.random() < 0.5
        self.L = [(i, j) for i in range(m) for j in range(n)]
        self.n = m * n
        self.idx = {x: i + 1 for i, x in enumerate(self.L)}
        self.E, self.w = [], {}
        for i, j in self.L:
            for di, dj, w in ((0, 1, 1), (1, 0, 1), (1, 1, 0), (1, -1, 0)):
                if (i + di, j + dj) in self.idx and (w or self.diag):
                    e = (self.idx[i, j], self.idx[i + di, j + dj])
                    self.E.append(e)
                    self.w[e] = w
        self.bp = [(i == 0) + (i == m - 1) + (j == 0) + (j == n - 1) for i, j in self.L]
        self.rim = [int(x > 0) for x in self.bp]
        self.area = [1] * self.n
        self.raw = self.cols = [[1] * self.n for _ in range(3)]
        self.votes = [[0] * self.n for _ in range(4)]
        self.cty = [[1] * self.n, [1] * self.n]
        self.unit, self.G, self.frozen = 1, None, None


def grid_class():
    keep = ["cut_edges", "population", "perimeter", "exterior_boundaries", "interior_boundaries",
            "boundary_nodes", "area", "polsby_popper", "cut_edges_by_part"]

    class P(Grid):
        default_updaters = {x: y for x, y in Grid.default_updaters.items() if x in keep}
    return P


COL = {"A": 1, "B": 2, "C": 3, "V0": 4, "V1": 5, "V2": 6, "V3": 7, "area": 8}


class Up:
    """An updater under observation: name in the plan, kind, and how to encode."""

    def __init__(self, name, kind, fn, **kw):
        self.name, self.kind, self.fn, self.kw = name, kind, fn, kw


def make_updaters(rng, focus, gr, shared):
    """The updaters of a root plan.  `shared` lets plans on different graphs
    use the same updater objects."""
    ups = []
    if focus in ("C02", "C05", "C04"):
        if rng.random() < 0.9 or focus != "C02":
            ups.append(Up("cut_edges_by_part", "cutp", U.cut_edges_by_part))
    if focus in ("C02", "C05", "C04", "C16"):
        ups.append(Up("cut_edges", "cut", U.cut_edges))
    if focus in ("C03", "C05"):
        ups.append(Up("A", "tally", shared.setdefault("A", U.Tally("A")), cs=[1]))
        ups.append(Up("pop", "tally", shared.setdefault("pop", U.Tally("B", alias="pop", dtype=rng.choice([int, float]))), cs=[2]))
        ab = rng.choice([["A", "B"], ["A", "B", "C"]])
        fn, ab = shared.setdefault("AB", (U.Tally(list(ab), alias="AB"), ab))
        ups.append(Up("AB", "tally", fn, cs=[COL[f] for f in ab]))
        form = rng.randrange(3)
        data = {gr.L[v]: gr.cols[1][v] for v in range(gr.n)}
        if form == 0:
            d = U.DataTally(pandas.Series([data[x] for x in gr.L], index=pandas.Index(gr.L, tupleize_cols=False)), "dt")
        elif form == 1:
            d = U.DataTally(data, "dt")
        else:
            d = shared.setdefault("dt", U.DataTally("B", "dt"))
        ups.append(Up("dt", "tally", d, cs=[2]))
        if rng.random() < 0.5:
            ups.append(Up("dtC", "tally", shared.setdefault("dtC", U.DataTally("C", "dtC")), cs=[3]))
        if rng.random() < 0.5:      # named like a column, but the sum of another
            ups.append(Up("B", "tally", shared.setdefault("B", U.Tally(rng.choice(["C", ["C"]]), alias="B")), cs=[3]))
        if rng.random() < 0.5:
            ups.append(Up("C", "tally", shared.setdefault("C", rng.choice([U.DataTally("A", "C"), U.Tally("A", alias="C")])), cs=[1]))
    if focus in ("C04", "C05"):
        ups += [Up("boundary_nodes", "rim", U.boundary_nodes),
                Up("exterior_boundaries_as_a_set", "rimd", U.exterior_boundaries_as_a_set),
                Up("exterior_boundaries", "ext", U.exterior_boundaries),
                Up("interior_boundaries", "int", U.interior_boundaries),
                Up("perimeter", "per", U.perimeter),
                Up("area", "tally", U.Tally("area", alias="area"), cs=[8])]
        ups.append(Up("polsby_popper", "pp", polsby_popper, cs=[8]))
    if focus in ("C15", "C05"):
        nel = rng.randint(1, 3) if focus == "C15" else 1
        for i in range(nel):
            np_ = rng.choice([2, 2, 3, 4, 1]) if focus == "C15" else 2
            cols = rng.sample(["V0", "V1", "V2", "V3"], np_)
            parties = rng.choice([["D", "R", "G", "L"], ["Dem", "Rep", "Lib", "Grn"]])[:np_]
            name = "E%d" % i
            form = rng.randrange(4)
            if form == 0:
                el, parties = U.Election(name, list(cols)), list(cols)
            elif form == 1:
                # the name may be that of another election, the alias counts
                el = U.Election(rng.choice(["Some name", "E0", "E1", "E2"]), dict(zip(parties, cols)), alias=name)
            elif form == 2:
                el = U.Election(name, dict(zip(parties, cols)))
            else:
                el = U.Election(name, {p: {gr.L[v]: gr.votes[int(c[1])][v] * gr.unit for v in range(gr.n)}
                                       for p, c in zip(parties, cols)}, alias=name)
            ups.append(Up(name, "elec", el, ps=[COL[c] for c in cols], parties=parties))
    if focus in ("C16", "C05"):
        ups.append(Up("cs", "cty", U.county_splits("cs", "county"), c=1))
        if rng.random() < 0.5:
            ups.append(Up("ms", "cty", U.county_splits("ms", "muni"), c=2))
        attrs = rng.choice([["county"], ["county", "muni"], ["muni"]])
        ups.append(Up("regs", "regs", shared.setdefault("regs" + str(attrs), U.tally_region_splits(attrs)),
                      cs=[1 if x == "county" else 2 for x in attrs], attrs=attrs))
        two = rng.choice([0, 1, 2, -2])
        names = [s for s in LOCS if rng.random() < 0.85] or ["num_parts"]
        rng.shuffle(names)
        key = ("loc", two, tuple(names))
        ups.append(Up("loc", "loc", shared.setdefault(key, LocalitySplits("loc", "county", "POP", names, pent_alpha=two / 2)),
                      c=1, two=two, names=names))
        if rng.random() < 0.5:
            ups.append(Up("loc2", "loc", LocalitySplits("loc2", "muni", "POP", LOCS, pent_alpha=0),
                          c=2, two=0, names=LOCS))
    if focus == "C23":
        ups.append(Up("cut_edges", "cut", U.cut_edges))
        ups.append(Up("flows", "nflow", None))
        ups.append(Up("edge_flows", "eflow", None))
        ups.append(Up("held", "held", shared.setdefault("held", told(lambda p: p.parts, FL.on_flow, "held"))))
        ups.append(Up("hcut", "hcut", shared.setdefault("hcut", told(cuts_of, FL.on_edge_flow, "hcut"))))
        if rng.random() < 0.3:
            ups.append(Up("cut_edges_by_part", "cutp", U.cut_edges_by_part))
        rng.shuffle(ups)
    if focus == "C05":
        def step(p):
            return 0 if p.parent is None else p.parent["step"] + 1
        ups.append(Up("step", "step", step))
        ups = [u for u in ups if u.name == "step" or rng.random() < 0.7 or u.kind in ("cut", "cutp", "rim", "ext", "int", "per", "tally", "rimd")]
    return ups


def told(parts_of, decorate, alias, **names):
    """An updater of a user: per district, what it is told joins and leaves;
    and whether something joined that was there or left that was not."""
    def init(p):
        return {d: (frozenset(x), True) for d, x in parts_of(p).items()}

    def step(p, previous, new, old):
        was, ok = previous
        return (was - set(old)) | set(new), ok and not (set(new) & was) and set(old) <= was
    if decorate is FL.on_flow:
        f = lambda partition, previous, new_nodes, old_nodes: step(partition, previous, new_nodes, old_nodes)
    else:
        N = lambda es: {tuple(sorted(e)) for e in es}
        f = lambda partition, previous, new_edges, old_edges: step(partition, previous, N(new_edges), N(old_edges))
    f.__name__ = alias
    return decorate(init, alias)(f)


def cuts_of(p):
    A = p.assignment
    out = {d: set() for d in p.parts}
    for e in p.graph.edges:
        if A[e[0]] != A[e[1]]:
            for x in e:
                out[A[x]].add(tuple(sorted(e)))
    return out


class Run:
    def __init__(self, rng, focus):
        self.rng, self.focus = rng, focus
        self.graphs, self.plans, self.ev, self.shared = [], [], [], {}
        self.count, self.first = {}, {}
        self.tags = set()

    def emit(self, **kw):
        kw.setdefault("exc", "")
        self.ev.append(kw)

    def trying(self, fn, **kw):
        try:
            with guard(30):
                return fn()
        except Exception as e:  # noqa
            self.emit(exc=exc_name(e), detail=trace_of(e), **kw)
            raise Stop()

    # -- operations ------------------------------------------------------------
    def new(self, gr, k, a, DL=None, with_default=True):
        rng = self.rng
        if gr not in self.graphs:
            self.graphs.append(gr)
        DL = DL or part_labels(rng, k)
        ups = make_updaters(rng, self.focus, gr, self.shared)
        geo = self.focus in ("C04", "C05")
        names = {}
        for u in ups:
            if u.fn is None:
                continue
            if self.focus == "C05":
                names[u.name] = self.counted(u)
            elif not (geo and u.name in ("perimeter", "exterior_boundaries", "interior_boundaries",
                                         "boundary_nodes", "cut_edges", "area", "cut_edges_by_part")
                      and rng.random() < 0.5) and not (u.name == "cut_edges" and rng.random() < 0.5):
                names[u.name] = u.fn
        grid = isinstance(gr, GridGr)
        cls = grid_class() if grid else fresh_class(geographic=geo)
        if self.focus == "C01" and rng.random() < 0.3 and not grid:
            cls = fresh_class(geographic=True)
        asg = {gr.L[v]: DL[a[v] - 1] for v in range(gr.n)}
        form = rng.randrange(6)
        if self.focus == "C01" and rng.random() < 0.15 and all(type(x) in (int, str) for x in DL):
            form = 6
        G = gr.G
        if grid and form in (1, 2, 4, 6):   # a grid takes a dictionary
            form = 0
        if form == 0:
            items = list(asg.items())
            rng.shuffle(items)
            arg = dict(items)
        elif form == 1:
            arg = pandas.Series([asg[x] for x in gr.L], index=pandas.Index(gr.L, tupleize_cols=False), dtype=object)
        elif form == 2:
            col = "asg%d" % len(self.plans)
            for x in gr.L:
                G.nodes[x][col] = asg[x]
            arg = col
        elif form == 3:
            arg = Assignment.from_dict(asg)
        elif form == 4:
            arg = get_assignment(asg, G)
        elif form == 6:            # an exported plan that lists the districts by an id column
            ids = rng.sample(range(1000), gr.n) if rng.random() < 0.5 else ["id%d" % rng.randrange(10) + "x" * i for i in range(gr.n)]
            col = "ID%d" % len(self.plans)
            for i, x in enumerate(gr.L):
                G.nodes[x][col] = ids[i]
            rows = [(str(ids[i]), asg[x]) for i, x in enumerate(gr.L)] + ([("elsewhere", DL[0])] if rng.random() < 0.3 else [])
            rng.shuffle(rows)
            arg = dict(idColumn=dict(key=col, name="x"), assignment=dict(rows), problem={"numberOfParts": k})
        else:
            arg = asg
        if form not in (2, 4, 6) and gr.frozen is not None and rng.random() < 0.5:
            G = gr.frozen
        elif form in (0, 3) and not grid and rng.random() < 0.3:
            G = nx.Graph(G)
        kw = dict(k="new", g=self.graphs.index(gr) + 1, kk=k, a=list(a))
        usedef = True
        if "cut_edges" in names and rng.random() < 0.2 and len(names) == len(ups):
            usedef = False
        if form == 6:
            def make():
                with tempfile.TemporaryDirectory() as t:
                    with open(t + "/plan.json", "w") as f:
                        json.dump(arg, f)
                    return cls.from_districtr_file(G, t + "/plan.json", names)
        elif grid:
            quad = gr.dim[0] > 1 and gr.dim[1] > 1 and rng.random() < 0.3
            if quad:               # without an assignment: the quadrants
                k, DL = 4, [0, 1, 2, 3]
                m, n = gr.dim[0] // 2, gr.dim[1] // 2
                a = [1 + (i >= m) + 2 * (j >= n) for i, j in gr.L]
                kw = dict(kw, kk=k, a=list(a))
            make = lambda: cls(gr.dim, gr.diag, None if quad else arg, names or None)
            self.tags.add("grid")
        else:
            opts = {} if usedef and rng.random() < 0.5 else dict(use_default_updaters=usedef)
            make = lambda: cls(G, arg, names, **opts)
        p = self.trying(make, ok=0, **kw)
        if self.focus == "C01" and form in (0, 3, 5) and rng.random() < 0.5:
            # what was handed over is changed by the caller afterwards
            if form == 3:
                one = rng.choice(DL)
                self.trying(lambda: arg.update_parts({d: gr.L if d == one else [] for d in DL}), ok=0, **kw)
            else:
                for x in gr.L:
                    arg[x] = DL[0]
                del arg[gr.L[-1]]
            names.clear()
            self.tags.add("handed-over-changed")
        gr.frozen = p.graph
        self.emit(ok=1, **kw)
        self.tags.add("new-form-%d" % form)
        self.plans.append(dict(p=p, gr=gr, DL=DL, ups=ups, k=k, a=list(a), par=0))
        return len(self.plans)

    def counted(self, u):
        def wrapped(p):
            self.count[(id(p), u.name)] = self.count.get((id(p), u.name), 0) + 1
            return u.fn(p)
        return wrapped

    def flip(self, i, f):
        P = self.plans[i - 1]
        f = list(f.items())
        self.rng.shuffle(f)
        fl = {P["gr"].L[v - 1]: P["DL"][d - 1] for v, d in f}
        kw = dict(k="flip", p=i, f=[[v, d] for v, d in f])
        q = self.trying(lambda: P["p"].flip(fl), ok=0, fresh=1, **kw)
        fresh = int(all(q is not x["p"] for x in self.plans) and type(q) is type(P["p"]))
        self.emit(ok=1, fresh=fresh, **kw)
        a = list(P["a"])
        for v, d in f:
            a[v - 1] = d
        self.plans.append(dict(P, p=q, a=a, par=i, cut=None))
        return len(self.plans)

    def drop(self, i):
        self.plans[i - 1]["p"].parent = None
        self.plans[i - 1]["cut"] = True
        self.emit(k="drop", p=i)

    def forget(self, i):
        """The plan is not used any more; its memory may be used again."""
        P = self.plans[i - 1]
        for key in [key for key in self.count if key[0] == id(P["p"])]:
            del self.count[key]
        P["p"] = None
        self.tags.add("forgotten")

    def obs(self, i):
        P = self.plans[i - 1]
        kw = dict(k="obs", p=i)
        self.emit(**self.trying(lambda: self.observe(P, i), **kw), **kw)

    def observe(self, P, i):
        p, gr, DL, k = P["p"], P["gr"], P["DL"], P["k"]
        ni = lambda x: gr.idx.get(x, 0)
        di = {x: j + 1 for j, x in enumerate(DL)}
        A = p.assignment
        rng = self.rng
        pairs = lambda items: sorted([ni(x), di.get(d, 0)] for x, d in items)
        views = [pairs(A.to_dict().items()), pairs((x, A[x]) for x in A), pairs(zip(A.keys(), A.values())),
                 pairs(dict(A).items())]
        if not any(isinstance(x, tuple) for x in list(gr.L) + list(DL)):
            s = A.to_series()
            if all(len(nodes) for nodes in p.parts.values()) or True:
                views.append(pairs(zip(list(s.index), list(s.values))))
        if isinstance(gr, GridGr):
            rows = p.as_list_of_lists()
            views.append(pairs(((i, j), d) for j, row in enumerate(rows) for i, d in enumerate(row)))
        sub = []
        if rng.random() < 0.6:
            for d in DL:
                g = p.subgraphs[d]
                sub.append(dict(nodes=sorted(ni(x) for x in g.nodes), edges=sorted(sorted([ni(x), ni(y)]) for x, y in g.edges)))
            if rng.random() < 0.3:
                got = {di.get(d, 0): sorted(ni(x) for x in g.nodes) for d, g in p.subgraphs.items()}
                for j in range(k):
                    sub[j]["nodes"] = got.get(j + 1, [0])
        cross = [[list(e), int(bool(p.crosses_parts((gr.L[e[0] - 1], gr.L[e[1] - 1]))))] for e in gr.E]
        par = -1
        if P.get("cut") is None:
            par = 0
            if p.parent is not None:
                par = next((j + 1 for j, x in enumerate(self.plans) if x["p"] is p.parent), 10**6)
        fl = []
        if p.flips:
            fl = sorted([ni(x), di.get(d, 0)] for x, d in p.flips.items())
        if "cut_edges" not in p.updaters:      # there unless asked to leave it out
            raise AssertionError("the default updaters are missing")
        return dict(map=pairs(A.items()),
                    parts=[sorted(ni(x) for x in p.parts[d]) for d in DL], nparts=len(p),
                    sub=sub, views=views, len=len(A), keys=sorted(ni(x) for x in A.keys()),
                    cross=cross, parent=par, flips=fl)

    def read(self, i, u=None):
        P = self.plans[i - 1]
        rng = self.rng
        u = u or rng.choice(P["ups"])
        kw = dict(k="read", p=i, u=u.kind)
        r = self.trying(lambda: self.encode(P, u), **kw)
        self.emit(**r, **kw)
        if self.focus == "C05":
            key = (i, u.name)
            s = json.dumps({x: y for x, y in r.items() if x != "refuse"}, sort_keys=True)
            if key in self.first:
                self.emit(k="read", p=i, u="same", val=int(self.first[key] == s))
            self.first[key] = s
            for w in rng.sample(P["ups"], min(2, len(P["ups"]))):
                self.emit(k="read", p=i, u="count", val=self.count.get((id(P["p"]), w.name), 0))

    def encode(self, P, u):
        p, gr, DL, k = P["p"], P["gr"], P["DL"], P["k"]
        ni = lambda x: gr.idx.get(x, 0)
        di = {x: j + 1 for j, x in enumerate(DL)}
        if u.kind in ("nflow", "eflow"):
            return self.enc_flow(P, u, ni, di)
        v = p[u.name] if self.rng.random() < 0.8 or not u.name.isidentifier() else getattr(p, u.name)
        if u.kind in ("held", "hcut"):
            f = ni if u.kind == "held" else lambda e: [ni(e[0]), ni(e[1])]
            return dict(val=[dict(has=sorted(map(f, v[d][0])), ok=int(v[d][1])) for d in DL])
        if u.kind == "cut":
            return dict(val=sorted([ni(x), ni(y)] for x, y in v))
        if u.kind == "cutp":
            return dict(val=[sorted([ni(x), ni(y)] for x, y in (v[d] if d in v else ())) for d in DL])
        if u.kind in ("tally", "ext", "int", "per"):
            dflt = None if u.kind != "ext" else 0
            unit = gr.unit if u.kind == "tally" and max(u.kw["cs"]) <= 3 else 1
            r = dict(val=[enc(per(v[d], unit) if d in v else dflt) for d in DL])
            if u.kind == "tally":
                r["cs"] = u.kw["cs"]
            return r
        if u.kind == "rim":
            return dict(val=sorted(ni(x) for x in v))
        if u.kind == "rimd":
            return dict(val=[sorted(ni(x) for x in (v[d] if d in v else ())) for d in DL])
        if u.kind == "pp":
            return dict(val=[rat(v[d] / FIX4PI, 400000) for d in DL], cs=u.kw["cs"])
        if u.kind == "elec":
            return self.enc_election(p, v, u, DL, k, gr.unit)
        if u.kind == "cty":
            c = u.kw["c"]
            names = {x: j for j, x in enumerate(gr.cname[c - 1])}
            val = [[names.get(key, -1), info.split.value if hasattr(info.split, "value") else int(info.split),
                    sorted(ni(x) for x in info.nodes), sorted(di.get(d, 0) for d in info.contains)]
                   for key, info in v.items()]
            refuse = int(C.refuse_new_splits(u.name)(p)) if self.rng.random() < 0.7 else -1
            return dict(val=sorted(val), c=c, refuse=refuse)
        if u.kind == "regs":
            return dict(val=[int(v[x]) for x in u.kw["attrs"]], cs=u.kw["cs"])
        if u.kind == "loc":
            val = []
            for s in LOCS:
                if s not in u.kw["names"]:
                    val.append(MISSING)
                elif s == "shannon_entropy":
                    val.append(fix(v[s], 10**6))
                elif s == "power_entropy":
                    val.append(fix(v[s], 1000))
                else:
                    val.append(int(v[s]))
            return dict(val=val, c=u.kw["c"], two=u.kw["two"])
        if u.kind == "step":
            return dict(val=int(v))
        raise AssertionError(u.kind)

    def enc_flow(self, P, u, ni, di):
        """What flowed in and out, per district; "root" for plans that were not flipped."""
        p, k, linked = P["p"], P["k"], P.get("cut") is None
        if P["par"] == 0:
            return dict(root=1)
        v = getattr(p, u.name)
        if linked and self.rng.random() < 0.5:
            v = FL.flows_from_changes(p.parent, p) if u.kind == "nflow" else FL.compute_edge_flows(p)
            self.tags.add("flows-recomputed")
        f = ni if u.kind == "nflow" else lambda e: [ni(e[0]), ni(e[1])]
        val = [{"in": [], "out": []} for _ in range(k)]
        odd = 0
        for d, x in v.items():
            if d not in di or set(x) - {"in", "out"}:
                odd = 1
            else:
                val[di[d] - 1] = {"in": sorted(map(f, x["in"])), "out": sorted(map(f, x["out"]))}
        return dict(root=0, odd=odd, val=[dict(new=x["in"], old=x["out"]) for x in val])

    def enc_election(self, p, r, u, DL, k, unit):
        order = list(p.parts)   # tuples come in the order of the parts
        pos = [order.index(d) for d in DL]
        ps = u.kw["parties"]
        tup = lambda t: [t[i] for i in pos]
        F = Fraction
        enc2 = lambda x: enc(per(x, unit), 2)
        cast = [r.totals[d] for d in DL]
        allcast = all(x > 0 for x in cast)
        # shares without rounding: comparisons with their mean are exact
        exact = 0
        if allcast and len(ps) > 0 and cast and all(float(x).is_integer() for x in cast):
            sh = [F(r.count(ps[0], d)) / F(r.totals[d]) for d in DL if float(r.count(ps[0], d)).is_integer()]
            exact = int(len(sh) == len(DL) and all(1024 % x.denominator == 0 for x in sh))
        m = lambda fn, scale=10**6: fix(fn(), scale) if allcast else MISSING
        return dict(
            ps=u.kw["ps"], exact=exact,
            counts=[[enc2(x) for x in tup(r.counts(q) if self.rng.random() < 0.5 else r.votes(q))] for q in ps],
            totals=[enc2(x) for x in cast],
            shares=[[rat(x, 5000) for x in tup(r.percents(q))] for q in ps],
            count1=[[enc2(r.count(q, d)) for d in DL] for q in ps],
            share1=[[rat(r.percent(q, d), 5000) for d in DL] for q in ps],
            state=[enc2(r.count(q)) for q in ps],
            stateshare=[rat(r.percent(q), 5000) if sum(cast) > 0 else [0, 0] for q in ps],
            cast=enc2(r.total_votes()),
            won=[[int(bool(r.won(q, d))) for d in DL] for q in ps],
            seats=[[int(r.seats(q)), int(r.wins(q))] for q in ps],
            mm=m(r.mean_median), mt=m(r.mean_thirdian), bias=m(r.partisan_bias), gini=m(r.partisan_gini),
            eg=m(r.efficiency_gap, 10**5) if len(ps) == 2 else MISSING)

    def summary(self, i):
        P = self.plans[i - 1]
        gr, a, k = P["gr"], P["a"], P["k"]
        for d in range(1, k + 1):
            S = [v for v in range(gr.n) if a[v] == d]
            per = sum(gr.bp[v] for v in S if gr.rim[v]) + sum(
                gr.w[e] for e in gr.E if a[e[0] - 1] != a[e[1] - 1] and d in (a[e[0] - 1], a[e[1] - 1]))
            if per < 4 or sum(gr.area[v] for v in S) <= 0:
                return
        p = P["p"]

        def f():
            x = [CC.L1_polsby_popper(p) / FIX4PI, CC.L1_reciprocal_polsby_popper(p) * FIX4PI,
                 CC.L2_polsby_popper(p) / FIX4PI, CC.L_minus_1_polsby_popper(p) / FIX4PI]
            return [fix(x[0], 10**5), fix(x[1], 10**3), fix(x[2], 10**3), fix(x[3], 10**3)]
        kw = dict(k="read", p=i, u="sum", cs=[8])
        self.emit(val=self.trying(f, **kw), **kw)

    def random_flip(self, i):
        rng, P = self.rng, self.plans[i - 1]
        n, k, a, E = P["gr"].n, P["k"], P["a"], P["gr"].E
        c = rng.randrange(10)
        cut = [e for e in E if a[e[0] - 1] != a[e[1] - 1]]
        if c <= 3 and cut:
            u, v = rng.choice(cut)
            if rng.random() < 0.5:
                u, v = v, u
            return {u: a[v - 1]}
        if c == 4 and cut:   # swap the ends of a cut edge
            u, v = rng.choice(cut)
            return {u: a[v - 1], v: a[u - 1]}
        if c == 5:           # a flip that changes nothing
            vs = rng.sample(range(1, n + 1), rng.randint(0, min(2, n)))
            return {v: a[v - 1] for v in vs}
        if c == 6:           # empty a district
            d = rng.randint(1, k)
            t = rng.choice([x for x in range(1, k + 1) if x != d] or [d])
            self.tags.add("emptied")
            return {v: t for v in range(1, n + 1) if a[v - 1] == d}
        if c == 7:
            return {v: rng.randint(1, k) for v in range(1, n + 1)}
        if c == 8:           # rename districts
            perm = list(range(1, k + 1))
            rng.shuffle(perm)
            return {v: perm[a[v - 1] - 1] for v in range(1, n + 1)}
        vs = rng.sample(range(1, n + 1), rng.randint(1, n))
        return {v: rng.randint(1, k) for v in vs}

    def look(self, i):
        if self.focus == "C01":
            self.obs(i)
        else:
            P = self.plans[i - 1]
            if self.rng.random() < 0.5:
                us = list(P["ups"])
                self.rng.shuffle(us)
                for u in us[: self.rng.randint(1, 4)]:
                    self.read(i, u)
            else:
                self.read(i)
            if self.focus == "C04" and self.rng.random() < 0.3:
                self.summary(i)

    def episode(self, length):
        rng = self.rng
        roots = 1 if rng.random() < 0.7 else 2
        grid = self.focus in ("C01", "C02", "C04", "C23") and rng.random() < 0.12
        grs = [GridGr(rng) if grid else Gr(rng, self.focus)]
        style = rng.randrange(5)     # when to look
        churn = rng.random() < 0.25  # plans are thrown away, others take their place in memory
        for _ in range(roots):
            gr = grs[0] if rng.random() < 0.5 else Gr(rng, self.focus)
            k = rng.randint(1, min(4 if gr.n <= 10 else 12, gr.n))
            self.new(gr, k, rand_asg(rng, gr.n, k))
        if roots == 2:
            self.tags.add("two-roots")
        while len(self.plans) < length + roots:
            live = [i for i, P in enumerate(self.plans, 1) if P["p"] is not None]
            i = live[-1] if rng.random() < 0.75 or style == 4 else rng.choice(live)
            j = self.flip(i, self.random_flip(i))
            if style == 0 or (style == 1 and rng.random() < 0.4) or (style == 2 and rng.random() < 0.1):
                self.look(j)
            elif style == 3 and rng.random() < 0.5:
                self.look(rng.choice(live + [j]))
            if rng.random() < 0.15:
                self.drop(rng.choice(live + [j]))
                self.tags.add("drop")
            if churn and rng.random() < 0.6:
                if rng.random() < 0.7:
                    self.look(j)
                self.forget(j)
        ids = [i for i, P in enumerate(self.plans, 1) if P["p"] is not None]
        rng.shuffle(ids)
        if len(ids) > 9:
            ids = ids[:9] + [max(ids)]
        for i in ids:
            self.look(i)
        self.tags.add("style-%d" % style)

    # -- refusals ----------------------------------------------------------------
    def refusals(self):
        rng = self.rng
        gr = Gr(rng, "C01")
        k = rng.randint(1, min(3, gr.n))
        DL = part_labels(rng, k)
        a = rand_asg(rng, gr.n, k)
        asg = {gr.L[v]: DL[a[v] - 1] for v in range(gr.n)}
        cls = fresh_class()
        S = pandas.Series

        def missing():
            x = dict(asg)
            for v in rng.sample(gr.L, rng.randint(1, gr.n)):
                del x[v]
            return x

        def extra():
            return {**asg, "no such node": DL[0]}

        def swapped():
            x = dict(asg)
            del x[rng.choice(gr.L)]
            x["no such node"] = DL[0]
            return x

        def parts(x):
            out = {}
            for v, d in x.items():
                out.setdefault(d, set()).add(v)
            return {d: frozenset(s) for d, s in out.items()}

        def overlap():
            x = parts(asg)
            x["extra district"] = frozenset([rng.choice(gr.L)])
            return Assignment(x)
        def no_column():
            with tempfile.TemporaryDirectory() as t:
                with open(t + "/plan.json", "w") as f:
                    json.dump(dict(idColumn=dict(key="NOWHERE"), assignment={}), f)
                return cls.from_districtr_file(gr.G, t + "/plan.json")
        form = lambda x: rng.choice([lambda: x, lambda: Assignment(parts(x)), lambda: Assignment.from_dict(x)])()
        cases = [("missing node", lambda: cls(gr.G, form(missing())), ["KeyError"]),
                 ("extra node", lambda: cls(gr.G, form(extra())), ["KeyError"]),
                 ("other node", lambda: cls(gr.G, form(swapped())), ["KeyError"]),
                 ("two districts", overlap, ["ValueError"]),
                 ("not a frozenset", lambda: Assignment({d: set(s) for d, s in parts(asg).items()}), ["TypeError"]),
                 ("column not there", no_column, ["TypeError"]),
                 ("not a mapping", lambda: cls(gr.G, 7), ["TypeError"]),
                 ("not a graph", lambda: cls(dict(asg), asg), ["TypeError"])]
        self.graphs.append(gr)
        for why, fn, want in cases:
            try:
                with guard(20):
                    fn()
                got = "accepted"
            except Exception as e:  # noqa
                got = exc_name(e)
            self.emit(k="refuse", why=why, got=got, want=want)

    def assignments(self):
        """Assignments by themselves: copies, flows, new parts."""
        rng = self.rng
        gr = Gr(rng, "C01")
        self.graphs.append(gr)
        k = rng.randint(2, 4) if gr.n >= 4 else 2
        DL = part_labels(rng, k)
        a = rand_asg(rng, gr.n, min(k, gr.n))
        k = min(k, gr.n)
        DL = DL[:k]
        ni = gr.idx
        di = {x: j + 1 for j, x in enumerate(DL)}
        live = [[Assignment.from_dict({gr.L[v]: DL[a[v] - 1] for v in range(gr.n)}), list(a)]]
        for _ in range(rng.randint(2, 6)):
            A, a = rng.choice(live)
            B, b = A.copy(), list(a)
            kw = dict(k="asg", kk=k, n=gr.n)
            if rng.random() < 0.5:
                f = {v: rng.randint(1, k) for v in rng.sample(range(1, gr.n + 1), rng.randint(1, gr.n))}
                flows = {}
                for v, d in f.items():
                    if b[v - 1] != d:
                        for t, way in ((d, "in"), (b[v - 1], "out")):
                            flows.setdefault(DL[t - 1], {"in": set(), "out": set()})[way].add(gr.L[v - 1])
                        b[v - 1] = d
                self.trying(lambda: B.update_flows(flows), ok=0, **kw)
            else:
                two = rng.sample(range(1, k + 1), rng.randint(2, k))
                for v in range(gr.n):
                    if b[v] in two:
                        b[v] = rng.choice(two)
                new = {DL[d - 1]: rng.choice([set, frozenset])(gr.L[v] for v in range(gr.n) if b[v] == d) for d in two}
                self.trying(lambda: B.update_parts(new), ok=0, **kw)
            live.append([B, b])

            def look():
                return [dict(want=w, map=sorted([ni.get(x, 0), di.get(d, 0)] for x, d in X.items()), len=len(X),
                             parts=[sorted(ni.get(x, 0) for x in X.parts[d]) for d in DL]) for X, w in live]
            self.emit(seen=self.trying(look, ok=0, **kw), **kw)

    def replay(self, sc):
        """A behaviour generated from the specification."""
        n, E, k = sc["n"], sc["E"], sc["k"]
        gr = Gr(self.rng, self.focus, n, sorted(tuple(e) for e in E))
        for op in sc["ops"]:
            if op["o"] == "new":
                self.new(gr, k, op["a"], DL=part_labels(self.rng, k))
            elif op["o"] == "flip":
                self.flip(op["p"], {v: d for v, d in op["f"]})
            elif op["o"] == "drop":
                self.drop(op["p"])
            elif op["o"] == "read":
                if self.focus == "C01":
                    self.obs(op["p"])
                else:
                    us = [u for u in self.plans[op["p"] - 1]["ups"]]
                    for u in us:
                        self.read(op["p"], u)
        for i in range(1, len(self.plans) + 1):
            self.look(i)
        self.tags.add("generated")


def main():
    focus, seed, count, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    scen = sys.argv[5] if len(sys.argv) > 5 else None
    D = Driver(out)
    if scen:
        lines = [json.loads(x) for x in open(scen)]
        jobs = [("replay", x) for x in lines]
    else:
        jobs = [("rand", j) for j in range(count)]
    for j, (kind, x) in enumerate(jobs):
        if not D.more():
            break
        rng = random.Random(f"{focus}-{seed}-{j}")
        R = Run(rng, focus)
        try:
            if kind == "replay":
                R.replay(x)
            elif focus == "C01" and j % 6 == 5:
                R.refusals()
            elif focus == "C01" and j % 12 == 4:
                R.assignments()
            else:
                R.episode(rng.choice([1, 2, 3, 3, 5, 8, 12] + ([40] if j % 17 == 0 else [])))
        except Stop:
            D.failed += 1
        D.add(dict(gs=[g.header() for g in R.graphs], ev=R.ev, tags=sorted(R.tags)))
    D.save()


if __name__ == "__main__":
    main()
