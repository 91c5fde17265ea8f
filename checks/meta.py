"""C19: diversity statistics and one-flip neighbourhoods."""
INV = "INIT Init\nNEXT Next\nINVARIANTS NeighboursExact NeighboursMutual CountsExact\nCHECK_DEADLOCK FALSE\n"


def cfg(n, k, s, bug="none"):
    return f'CONSTANTS\n N = {n}\n K = {k}\n Steps = {s}\n Bug = "{bug}"\n'


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda a=a: c.model("MetaModel n=%d k=%d steps=%d" % a, "MetaModel", cfg(*a) + INV, timeout=3000)
            for a in [(3, 2, 3), (4, 2, 2), (4, 3, 2)] + ([(4, 2, 4), (4, 3, 4), (5, 2, 2)] if big else [])]
    for bug, a in (("one-end", (3, 2, 1)), ("discontiguous", (4, 3, 3))):
        jobs.append(lambda a=a, bug=bug: c.model(f"negative control {bug}", "MetaModel", cfg(*a, bug) + INV, expect_violation=True))
    n = 5000 if big else 350
    for kind in ("diversity", "near"):
        jobs += c.shards("meta", "MetaTrace", [[kind, c.seed * 100 + i, n, "OUT"] for i in range(4)], kind, timeout=2500)
    c.parallel(jobs)
