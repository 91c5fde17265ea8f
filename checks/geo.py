"""C20: dual graphs and graph data."""


def run(c):
    big = c.tier == "thorough"
    ginv = "INVARIANTS EdgesRight RimRight Symmetric RookIsQueen RimIffLength\nCHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\n"
    g = lambda a, b, n, rule, w, bug="none": f'CONSTANTS\n CX = {a}\n CY = {b}\n N = {n}\n Rule = "{rule}"\n Wid = {w}\n Bug = "{bug}"\n' + ginv
    jobs = [lambda a=a: c.model("GeoModel %s" % (a,), "GeoModel", g(*a), timeout=3000)
            for a in [(2, 3, 2, "rook", 2), (2, 3, 3, "queen", 1), (3, 3, 2, "rook", 1)] + ([(3, 3, 3, "rook", 2), (3, 3, 3, "queen", 1), (2, 4, 3, "rook", 2)] if big else [])]
    for bug in ("corner", "twice", "flag"):
        jobs.append(lambda bug=bug: c.model(bug, "GeoModel", g(*((3, 3, 2) if bug == "flag" else (2, 3, 3)), "rook", 1, bug), expect_violation=True))
    dinv = "CONSTRAINT Bounded\nINVARIANTS OnlyRequested FailedLeavesAll LoadedIsSaved ReadsLeaveAll\nPROPERTY FrozenStays\nCHECK_DEADLOCK FALSE\nSPECIFICATION Spec\n"
    d = lambda n, cc, v, bug="none": f'CONSTANTS\n N = {n}\n C = {cc}\n V = {v}\n Depth = {3 if cc == 1 else 2 if big else 1}\n Bug = "{bug}"\n' + dinv
    jobs.append(lambda: c.model("DataModel 2 nodes", "DataModel", d(2, 2, 2), timeout=3000))
    jobs.append(lambda: c.model("DataModel 3 nodes, 1 column", "DataModel", d(3, 1, 2), timeout=3000))
    for bug in ("all-columns", "partial", "thaw"):
        jobs.append(lambda bug=bug: c.model(bug, "DataModel", d(2, 1 if bug == "thaw" else 2, 2, bug), expect_violation=True))
    n = 5000 if big else 350
    s = c.seed * 100
    jobs += c.shards("geo", "GeoTrace", [["maps", s + i, n, "OUT"] for i in range(4)], "maps", timeout=2500)
    jobs += c.shards("geo", "GeoTrace", [["zones", s, n // 10, "OUT"]], "zones", timeout=2500)
    jobs += c.shards("geo", "DataTrace", [["data", s + i, n, "OUT"] for i in range(3)], "data", timeout=2500)
    c.parallel(jobs)
