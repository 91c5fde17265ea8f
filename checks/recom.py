"""C12: ReCom; C13: reversible ReCom; C25: spectral ReCom."""
from .trees import search_models

INV = {"C12": "StaysFine OnePair", "C25": "StaysFine OnePair", "C13": "StaysFine OnePair Balance WaysFormula"}


def cfg(prop, n, k, m, eps, bug="none"):
    return (f'CONSTANTS\n N = {n}\n K = {k}\n M = {m}\n Eps16 = {eps}\n Bug = "{bug}"\nINIT Init\nNEXT Next\n'
            f'INVARIANTS {INV[prop]}\nCHECK_DEADLOCK FALSE\n')


def run(c):
    big = c.tier == "thorough"
    jobs = []
    if c.prop == "C12":
        for n, k, e in [(4, 2, 8), (4, 3, 12)] + ([(5, 2, 8), (5, 3, 12), (4, 4, 0)] if big else []):
            jobs.append(lambda n=n, k=k, e=e: c.model(f"RecomModel n={n} k={k} eps={e}/16", "RecomModel", cfg("C12", n, k, 4, e), timeout=3000))
        for bug in ("one-sided", "label"):
            jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "RecomModel", cfg("C12", 5 if bug == "one-sided" else 4, 3, 4, 8 if bug == "one-sided" else 12, bug), expect_violation=True))
        search_models(c, jobs)
        n = 5000 if big else 300
        jobs += c.shards("recom", "RecomTrace", [["pairs", c.seed * 100 + i, n, "OUT"] for i in range(2)], "pairs", timeout=3000)
        jobs += c.shards("recom", "RecomTrace", [["steps", c.seed * 100 + i, n, "OUT"] for i in range(6)], "steps", timeout=3000)
    elif c.prop == "C25":
        # no tolerance: every split into two connected halves
        for n, k in [(4, 2), (4, 3)] + ([(5, 2), (5, 3), (4, 4)] if big else []):
            jobs.append(lambda n=n, k=k: c.model(f"RecomModel n={n} k={k}, any balance", "RecomModel", cfg("C25", n, k, 4, 16 * n), timeout=3000))
        jobs.append(lambda: c.model("negative control label", "RecomModel", cfg("C25", 4, 3, 4, 64, "label"), expect_violation=True))
        n = 5000 if big else 300
        jobs += c.shards("recom", "RecomTrace", [["spectral", c.seed * 100 + i, n, "OUT"] for i in range(8)], "spectral", timeout=3000)
    else:
        for n, k, m, e in [(4, 2, 4, 8), (4, 2, 1, 8), (4, 3, 4, 12)] + ([(5, 2, 5, 8), (5, 2, 2, 8), (5, 3, 5, 12)] if big else []):
            jobs.append(lambda n=n, k=k, m=m, e=e: c.model(f"RecomModel n={n} k={k} M={m} eps={e}/16", "RecomModel", cfg("C13", n, k, m, e), timeout=3000))
        jobs.append(lambda: c.model("negative control no-seam", "RecomModel", cfg("C13", 4, 2, 4, 8, "no-seam"), expect_violation=True))
        n = 1500 if big else 60
        jobs += c.shards("recom", "RecomTrace", [["reversible", c.seed * 100 + i, n, "OUT"] for i in range(6)], "reversible", timeout=3000)
        jobs += c.shards("recom", "RecomTrace", [["revsteps", c.seed * 100 + i, n * 4, "OUT"] for i in range(2)], "revsteps", timeout=3000)
    c.parallel(jobs)
