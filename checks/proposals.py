"""C09: flip proposals."""

INV = "PairsExact BoundaryExact OddsAddUp StepsAdvertised Back"


def cfg(n, k, bug="none"):
    return (f'CONSTANTS\n N = {n}\n K = {k}\n Bug = "{bug}"\nINIT Init\nNEXT Next\nINVARIANTS {INV}\nCHECK_DEADLOCK FALSE\n')


def run(c):
    big = c.tier == "thorough"
    sizes = [(3, 2), (3, 3), (4, 2), (4, 3)] + ([(4, 4), (5, 2), (5, 3)] if big else [])
    jobs = [lambda n=n, k=k: c.model(f"ProposalModel n={n} k={k}", "ProposalModel", cfg(n, k), timeout=3000) for n, k in sizes]
    jobs.append(lambda: c.model("negative control oneend", "ProposalModel", cfg(3, 2, "oneend"), expect_violation=True))
    n = 8000 if big else 500
    jobs += c.shards("proposals", "ProposalTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(8)], "outcomes", timeout=3000)
    c.parallel(jobs)
