"""C14: seed plans."""
INV = "INIT Init\nNEXT Next\nINVARIANTS CoversDisjointly AllConnected RightNumber WithinTolerance DebtBounded\nCHECK_DEADLOCK FALSE\n"


def cfg(n, k, mp, eps, mode, chunks=0, ceil=9, bug="none"):
    return (f'CONSTANTS\n N = {n}\n K = {k}\n MaxPop = {mp}\n Eps16 = {eps}\n Mode = "{mode}"\n Chunks = {chunks}\n'
            f' Ceil = {ceil}\n Bug = "{bug}"\n')


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda a=a: c.model("SeedModel %s" % (a,), "SeedModel", cfg(*a) + INV, timeout=3000)
            for a in [(4, 3, 2, 8, "tree"), (4, 4, 1, 4, "tree"), (4, 3, 2, 8, "seed"), (4, 4, 2, 12, "seed"), (4, 4, 1, 8, "seed", 3), (5, 4, 1, 12, "tree"), (5, 4, 1, 12, "seed")]
            + ([(5, 3, 2, 8, "tree"), (5, 4, 2, 12, "seed"), (5, 5, 1, 8, "seed", 0, 2), (5, 5, 2, 12, "tree")] if big else [])]
    for bug, a in (("no-debt", (5, 4, 1, 4, "tree")), ("one-sided", (4, 3, 2, 4, "tree")), ("last-chunk", (4, 3, 2, 4, "seed"))):
        jobs.append(lambda a=a, bug=bug: c.model(f"negative control {bug}", "SeedModel", cfg(*a, *([0, 9][len(a) - 5:]), bug) + INV, expect_violation=True))
    n = 6000 if big else 900
    jobs += c.shards("seeding", "SeedTrace", [["parts", c.seed * 100 + i, n, "OUT"] for i in range(7)], "parts", timeout=2500)
    jobs += c.shards("seeding", "SeedTrace", [["factors", c.seed * 100 + i, n // 10, "OUT"] for i in range(1)], "factors", timeout=2500)
    c.parallel(jobs)
