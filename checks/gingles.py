"""C18: Gingles scores."""
INV = "INIT Init\nNEXT Next\nINVARIANTS TermInUnit Monotone\nCHECK_DEADLOCK FALSE\n"


def cfg(k, den, bug="none"):
    return f'CONSTANTS\n K = {k}\n Den = {den}\n Bug = "{bug}"\n'


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda a=a: c.model("GinglesModel k=%d den=%d" % a, "GinglesModel", cfg(*a) + INV, timeout=2500)
            for a in [(1, 20), (2, 20), (3, 8)] + ([(3, 20), (4, 8)] if big else [])]
    jobs.append(lambda: c.model("negative control exceeds", "GinglesModel", cfg(2, 8, "exceeds") + INV, expect_violation=True))
    n = 10000 if big else 700
    jobs += c.shards("gingles", "GinglesTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(6)], "scores", timeout=2500)
    c.parallel(jobs)
