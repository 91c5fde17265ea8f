"""C07: constraints and bounds."""


def cfg(values, calls, bug="none"):
    return (f'CONSTANTS\n R = {values}\n MaxCalls = {calls}\n Bug = "{bug}"\n'
            'INIT Init\nNEXT Next\nINVARIANT Frozen\nCHECK_DEADLOCK FALSE\n')


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda: c.model("BoundsModel", "BoundsModel", cfg(4 if big else 2, 5 if big else 4))]
    for bug in ("falsy", "signed", "follows", "creeps"):
        jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "BoundsModel", cfg(2, 3, bug), expect_violation=True))
    n = 20000 if big else 1500
    jobs += c.shards("bounds", "BoundsTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(8)], "calls", timeout=1500)
    c.parallel(jobs)
