"""All outcomes of code that draws from the random module, with their exact
probabilities.

explore(fn) runs fn once for every sequence of results of the random choices
(random.choice, sample, shuffle, randrange, ... all come down to
Random._randbelow) and returns the probability of every outcome as a Fraction.
A draw of random.random() becomes a choice between GRID equally spaced numbers
(which is exact for choices among n items for every n that divides GRID), or is
answered by `floats`.  Sequences of choices less likely than `cutoff` are left
out; `left` is their probability.
"""
import random
from fractions import Fraction

GRID = 2520


class Cut(BaseException):
    pass


class TooMany(Exception):
    pass


class Script:
    """Answers random draws by a given sequence of choices, then by zeros."""

    def __init__(self, choices, cutoff, floats=None, max_draws=4000):
        self.choices, self.cutoff, self.floats = choices, cutoff, floats
        self.path, self.p, self.nfloat, self.max_draws = [], Fraction(1), 0, max_draws

    def below(self, n):
        if n <= 0:
            return 0
        if n == 1:
            return 0
        i = len(self.path)
        c = self.choices[i] if i < len(self.choices) else 0
        self.path.append((c, n))
        self.p /= n
        if self.cutoff and self.p < self.cutoff or i > self.max_draws:
            raise Cut()
        return c

    def branch(self, p):
        """True with probability p."""
        p = Fraction(p)
        if p <= 0 or p >= 1:
            return p >= 1
        i = len(self.path)
        c = self.choices[i] if i < len(self.choices) else 0
        self.path.append((c, 2))
        self.p *= p if c == 0 else 1 - p
        if self.cutoff and self.p < self.cutoff or i > self.max_draws:
            raise Cut()
        return c == 0

    def unit(self):
        self.nfloat += 1
        if self.floats is not None:
            return self.floats(self)
        return (self.below(GRID) + 0.5) / GRID


class patched:
    """Sends the draws of the random module to a Script."""

    def __init__(self, script):
        self.s = script

    def __enter__(self):
        inst = random._inst
        self.unit = random.random
        inst._randbelow = self.s.below
        inst.random = self.s.unit
        random.random = self.s.unit

    def __exit__(self, *a):
        inst = random._inst
        del inst._randbelow
        del inst.random
        random.random = self.unit


class Result:
    def __init__(self):
        self.out, self.left, self.runs, self.floats, self.exact = {}, Fraction(0), 0, 0, True

    def add(self, o, p):
        self.out[o] = self.out.get(o, 0) + p


class Concrete(BaseException):
    """A lazy number was used for something else than a comparison."""


def ratio(x):
    """The number a float stands for, as a fraction: exact for the floats that are fractions
    with small denominators."""
    f = Fraction(x)
    g = f.limit_denominator(10**6)
    return g if float(g) == float(x) else f


class Lazy(float):
    """A uniform random number that is decided only by comparisons: comparing it
    with p branches into 'below' with probability p and 'above' with 1 - p."""

    def __new__(cls, script):
        x = float.__new__(cls, 0.5)
        x.s, x.lo, x.hi = script, Fraction(0), Fraction(1)
        return x

    def below(self, p):
        if isinstance(p, Lazy):
            raise Concrete()
        p = float(p)
        if p != p:
            return False
        p = ratio(p) if abs(p) < 10**9 else Fraction(p if abs(p) != float("inf") else (2 if p > 0 else -1))
        if p <= self.lo:
            return False
        if p >= self.hi:
            return True
        if self.s.branch((p - self.lo) / (self.hi - self.lo)):
            self.hi = p
            return True
        self.lo = p
        return False

    def __lt__(self, o):
        return self.below(o)
    __le__ = __lt__

    def __gt__(self, o):
        return not self.below(o)
    __ge__ = __gt__

    def __hash__(self):
        raise Concrete()

    def _no(self, *a):
        raise Concrete()
    __eq__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __neg__ = __float__ = __int__ = __round__ = __pow__ = __rpow__ = __floordiv__ = __mod__ = __bool__ = __floor__ = __ceil__ = __trunc__ = _no


def lazy(script):
    return Lazy(script)


def explore(fn, limit=4000, cutoff=None, floats=None):
    """fn() -> hashable outcome."""
    R, choices = Result(), []
    while True:
        s = Script(choices, cutoff, floats)
        try:
            with patched(s):
                o = fn()
            R.add(o, s.p)
        except Cut:
            R.left += s.p
        R.runs += 1
        R.floats = max(R.floats, s.nfloat)
        path = list(s.path)
        while path and path[-1][0] + 1 >= path[-1][1]:
            path.pop()
        if not path:
            return R
        if R.runs >= limit:
            raise TooMany(f"{limit} sequences of choices")
        choices = [c for c, _ in path[:-1]] + [path[-1][0] + 1]


def sample(fn, runs, seed):
    """Fallback: relative frequencies."""
    R = Result()
    R.exact = False
    st = random.getstate()
    random.seed(seed)
    for _ in range(runs):
        R.add(fn(), Fraction(1, runs))
    R.runs = runs
    random.setstate(st)
    return R
