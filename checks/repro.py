"""C21: reproducibility."""


def run(c):
    big = c.tier == "thorough"
    cfg = lambda procs, ln, bug="none": (f'CONSTANTS\n Procs = {{{procs}}}\n Seeds = {{1, 2}}\n MaxLen = {ln}\n Bug = "{bug}"\n'
                                         "INIT Init\nNEXT Next\nINVARIANT Reproducible\nCHECK_DEADLOCK FALSE\n")
    jobs = [lambda: c.model("ReproModel", "ReproModel", cfg("1, 2", 3 if big else 2), timeout=3000)]
    for bug in ("leftovers", "other-stream"):
        jobs.append(lambda bug=bug: c.model("negative control " + bug, "ReproModel", cfg("1, 2", 3, bug), expect_violation=True))
    n = 2300 if big else 138
    jobs += c.shards("repro", "ReproTrace", [["runs", c.seed * 100 + i, n, "OUT"] for i in range(6)], "runs", timeout=2500)
    c.parallel(jobs)
