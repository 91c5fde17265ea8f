"""C08: contiguity."""


def cfg(n, k, multi, bug="none", inv="AffectedExact SingleExact"):
    return (f'CONSTANTS\n N = {n}\n K = {k}\n Multi = {"TRUE" if multi else "FALSE"}\n Bug = "{bug}"\n'
            f'INIT Init\nNEXT Next\nINVARIANTS {inv}\nCHECK_DEADLOCK FALSE\n')


def run(c):
    big = c.tier == "thorough"
    sizes = [(4, 2, False), (4, 3, False), (3, 2, True), (3, 3, True)]
    if big:
        sizes += [(5, 2, False), (5, 3, False), (4, 2, True), (4, 3, True)]
    jobs = []
    for n, k, m in sizes:
        jobs.append(lambda n=n, k=k, m=m: c.model(f"ContigModel n={n} k={k} multi={m}", "ContigModel", cfg(n, k, m), timeout=3000))
    for bug in ("empty", "gained", "local"):
        jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "ContigModel", cfg(5 if bug == "local" else 4, 2, False, bug), expect_violation=True))
    n = 30000 if big else 1200
    jobs += c.shards("contig", "ContigTrace", [["random", c.seed * 100 + i, n, "OUT"] for i in range(8)], "walks", timeout=3000)
    of = 8 if big else 1
    sz = [(3, 2), (3, 3), (4, 2), (4, 3)] + ([(5, 2), (5, 3)] if big else [])
    jobs += c.shards("contig", "ContigTrace", [[f"all:{a}:{b}:{s}:{of}", c.seed, 10000 if big else 1, "OUT"] for a, b in sz for s in range(of)],
                     "exhaustive", timeout=3000)
    c.parallel(jobs)
