"""C22: acceptance rules and schedules."""
INV = "INIT Init\nNEXT Next\nINVARIANTS CutBalance AnnealBalance InUnit Cyclic Smooth\nCHECK_DEADLOCK FALSE\n"


def cfg(c, d, bug="none"):
    return f'CONSTANTS\n MaxCut = {c}\n MaxScore = {c}\n MaxDur = {d}\n Bug = "{bug}"\n'


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda: c.model("AcceptModel", "AcceptModel", (cfg(9, 5) if big else cfg(5, 3)) + INV, timeout=2500),
            lambda: c.model("negative control off", "AcceptModel", cfg(2, 2, "off") + INV, expect_violation=True)]
    n = 8000 if big else 400
    for kind, sh in (("cut", 2), ("runs", 4), ("beta", 2)):
        jobs += c.shards("accept", "AcceptTrace", [[kind, c.seed * 100 + i, n, "OUT"] for i in range(sh)], kind, timeout=2500)
    c.parallel(jobs)
