"""Inputs, encodings and guards shared by the drivers that run the real code.

Every driver writes a JSON list of episodes, each with a header and a list
"ev" of events.  Nodes and districts are 1..n and 1..k in the events; the
labels used in the code under test are drawn from LABELS and PARTS.  Numbers
are integers (see enc()).
"""
import json, math, random, signal, sys, time, traceback, warnings
from fractions import Fraction

warnings.simplefilter("ignore")
import networkx as nx

NAN, MISSING, INEXACT = 1000000007, 1000000009, 1000000021
SCALE = 4


def enc(x, scale=SCALE):
    """A number as an integer multiple of 1/scale."""
    if x is None:
        return MISSING
    x = float(x) if not isinstance(x, (int, Fraction)) else x
    if x != x:
        return NAN
    if x in (math.inf, -math.inf):
        return INEXACT
    y = Fraction(x) * scale
    if y.denominator != 1 or abs(y) > 10**9:
        return INEXACT
    return int(y)


def fix(x, scale):
    """A number in fixed point, rounded."""
    x = float(x)
    if x != x:
        return NAN
    if abs(x) * scale > 10**9:
        return INEXACT
    return int(round(x * scale))


def rat(x, maxden):
    """The simplest fraction a float stands for, as [num, den]; NaN is [0, 0]."""
    x = float(x)
    if x != x:
        return [0, 0]
    if math.isinf(x) or abs(x) > 10**6:
        return [INEXACT, 1]
    f = Fraction(x).limit_denominator(maxden)
    if abs(float(f) - x) > 1e-9 * max(1.0, abs(x)):
        return [INEXACT, 1]
    return [f.numerator, f.denominator]


class Timeout(Exception):
    pass


class guard:
    """Ends a block that does not come to an end by itself (after two such
    blocks, which the trace reports, the others get little time)."""
    ended = 0

    def __init__(self, seconds):
        self.seconds = seconds if guard.ended < 2 else 0.5

    def __enter__(self):
        def h(*a):
            guard.ended += 1
            raise Timeout(f"no result after {self.seconds} s")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def exc_name(e):
    return type(e).__name__


def trace_of(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]


# -- labels -------------------------------------------------------------------
def node_labels(rng, n):
    c = rng.randrange(7)
    if c == 0:
        return list(range(n))
    if c == 1:
        return list(range(1, n + 1))
    if c == 2:
        L = rng.sample(range(-n, 3 * n), n)
        return L
    if c == 3:
        L = ["", "a", "b", "10", "9", "Z", " x", "é"] + ["n%d" % i for i in range(n)]
        L = L[:n]
        rng.shuffle(L)
        return L
    if c == 4:
        w = int(math.ceil(math.sqrt(n)))
        return [(i // w, i % w) for i in range(n)]
    if c == 5:
        return [str(i) for i in range(n)]
    L = list(range(n))
    rng.shuffle(L)
    return L


def part_labels(rng, k, comparable=False):
    c = rng.randrange(6 if comparable else 8)
    if c == 0:
        return list(range(k))
    if c == 1:
        return list(range(1, k + 1))
    if c == 2:
        return rng.sample(range(-k, 2 * k + 1), k)
    if c == 3:
        L = (["", "A", "b", "1"] + ["d%d" % i for i in range(k)])[:k]
        rng.shuffle(L)
        return L
    if c == 4:
        L = list(range(k))
        rng.shuffle(L)
        return L
    if c == 5:
        return [(0, i) for i in range(k)]
    if c == 6:
        return ([0, "", (), "0", -1, 2.5] + ["m%d" % i for i in range(k)])[:k]
    return [k - i for i in range(k)]


# -- graphs -------------------------------------------------------------------
def rand_connected(rng, n, extra=None):
    perm = list(range(1, n + 1))
    rng.shuffle(perm)
    E = set()
    for i in range(1, n):
        u, v = perm[i], perm[rng.randrange(i)]
        E.add((min(u, v), max(u, v)))
    pool = [(u, v) for u in range(1, n + 1) for v in range(u + 1, n + 1) if (u, v) not in E]
    rng.shuffle(pool)
    E |= set(pool[: rng.randrange(0, n + 1) if extra is None else extra])
    return sorted(E)


def grid_edges(w, h):
    idx = lambda i, j: i * h + j + 1
    E = []
    for i in range(w):
        for j in range(h):
            if i + 1 < w:
                E.append((idx(i, j), idx(i + 1, j)))
            if j + 1 < h:
                E.append((idx(i, j), idx(i, j + 1)))
    return sorted(E)


def shape(rng, lo=2, hi=9, connected=True):
    """A small graph (n, edges) from one of several families."""
    c = rng.randrange(9 if connected else 12)
    n = rng.randint(lo, hi)
    if c == 0:
        return n, [(i, i + 1) for i in range(1, n)]
    if c == 1 and n >= 3:
        return n, sorted([(i, i + 1) for i in range(1, n)] + [(1, n)])
    if c == 2:
        for _ in range(20):
            w, h = rng.randint(1, 4 if hi <= 16 else 6), rng.randint(1, 4 if hi <= 16 else 6)
            if lo <= w * h <= hi:
                return w * h, grid_edges(w, h)
    if c == 3:
        return n, [(1, i) for i in range(2, n + 1)]
    if c == 4 and n <= 6:
        return n, [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1)]
    if c == 9:   # disconnected
        E = rand_connected(rng, n)
        return n, sorted(rng.sample(E, len(E) * 2 // 3))
    if c == 10:  # an island
        if n > lo:
            return n, rand_connected(rng, n - 1)
    if c == 11:
        return n, []
    return n, rand_connected(rng, n)


def rand_asg(rng, n, k):
    """An onto assignment."""
    while True:
        a = [rng.randint(1, k) for _ in range(n)]
        if len(set(a)) == k:
            return a


def comps(E, S):
    S = set(S)
    adj = {v: set() for v in S}
    for u, v in E:
        if u in S and v in S:
            adj[u].add(v)
            adj[v].add(u)
    out = []
    while S:
        st = [S.pop()]
        C = set(st)
        while st:
            x = st.pop()
            for y in adj[x]:
                if y not in C:
                    C.add(y)
                    S.discard(y)
                    st.append(y)
        out.append(C)
    return out


def contiguous_asg(rng, n, E, k):
    """A random contiguous plan on a connected graph, by growing districts."""
    nb = {v: set() for v in range(1, n + 1)}
    for u, v in E:
        nb[u].add(v)
        nb[v].add(u)
    seeds = rng.sample(range(1, n + 1), k)
    a = {s: i + 1 for i, s in enumerate(seeds)}
    while len(a) < n:
        fr = [(u, v) for u in a for v in nb[u] if v not in a]
        if not fr:
            return None
        u, v = rng.choice(sorted(fr))
        a[v] = a[u]
    return [a[v] for v in range(1, n + 1)]


def build(rng, n, E, L, nodes=None, edges=None, cls=None, shuffle=True):
    """The graph with labels L (index 0..n-1) and the given attributes."""
    if cls is None:
        from gerrychain import Graph as cls
    G = cls()
    order = list(range(1, n + 1))
    EE = [tuple(e) for e in E]
    if shuffle:
        rng.shuffle(order)
        rng.shuffle(EE)
    for v in order:
        G.add_node(L[v - 1], **(nodes[v - 1] if nodes else {}))
    for u, v in EE:
        at = edges[(u, v)] if edges else {}
        if shuffle and rng.random() < 0.5:
            u, v = v, u
        G.add_edge(L[u - 1], L[v - 1], **at)
    return G


def fresh_class(geographic=False):
    """Partition classes share their dictionary of updaters between all plans
    (see DESIGN.md, known finding of C05): every episode gets its own class."""
    from gerrychain import Partition, GeographicPartition
    base = GeographicPartition if geographic else Partition

    class P(base):
        __slots__ = ()
        default_updaters = dict(base.default_updaters)
    # the shared dictionary may have been changed by other code
    keep = (["perimeter", "exterior_boundaries", "interior_boundaries", "boundary_nodes",
             "cut_edges", "area", "cut_edges_by_part"] if geographic else ["cut_edges"])
    P.default_updaters = {k: v for k, v in P.default_updaters.items() if k in keep}
    return P


class Driver:
    """Collects episodes; stops early once enough of them have failed."""

    def __init__(self, out, budget=120.0):
        warnings.simplefilter("ignore")
        self.out, self.eps, self.t0, self.budget = out, [], time.time(), budget
        self.failed = 0

    def more(self):
        return self.failed < 3 and time.time() - self.t0 < self.budget

    def add(self, ep):
        self.eps.append(ep)

    def save(self):
        with open(self.out, "w") as f:
            json.dump(self.eps, f)
