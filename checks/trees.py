"""C10: balanced cuts and bipartitions; C11: spanning trees; C24: the choice among cuts."""


def cfg(n, mp, bug="none"):
    return (f'CONSTANTS\n N = {n}\n MaxPop = {mp}\n Bug = "{bug}"\nINIT Init\nNEXT Next\n'
            'INVARIANTS OnlyBalanced AllFound SubsetIsSide CutsSplit\nCHECK_DEADLOCK FALSE\n')


def search_cfg(pairs, mx, rep, resel, bug="none"):
    return (f'CONSTANTS\n Pairs = {pairs}\n MaxAttempts = {mx}\n Repeats = {rep}\n Reselect = {"TRUE" if resel else "FALSE"}\n Bug = "{bug}"\n'
            'SPECIFICATION Spec\nINVARIANTS Bounded TreesBounded SplitsOnlySplittable FailsOnlyAfterAll NeverRetried\n'
            'PROPERTIES Ends FailsIfImpossible\nCHECK_DEADLOCK FALSE\n')


def search_models(c, jobs):
    big = c.tier == "thorough"
    for pairs, mx, rep, resel in [(3, 3, 2, True), (2, 4, 1, False)] + ([(4, 4, 3, True), (4, 5, 2, True)] if big else []):
        jobs.append(lambda a=(pairs, mx, rep, resel): c.model("SearchModel pairs=%d attempts=%d repeats=%d reselect=%s" % a, "SearchModel", search_cfg(*a), timeout=3000))
    for bug in ("endless", "retries"):
        jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "SearchModel", search_cfg(2, 2, 2, True, bug), expect_violation=True))


def run(c):
    big = c.tier == "thorough"
    jobs = []
    if c.prop == "C10":
        for n, mp in [(2, 3), (3, 3), (4, 2)] + ([(4, 3), (5, 2)] if big else []):
            jobs.append(lambda n=n, mp=mp: c.model(f"TreeModel n={n} populations 1..{mp}", "TreeModel", cfg(n, mp), timeout=3000))
        for bug in ("one-side", "forgets"):
            jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "TreeModel", cfg(4, 2, bug), expect_violation=True))
        search_models(c, jobs)
        n = 4000 if big else 250
        jobs += c.shards("trees", "TreeTrace", [["cuts", c.seed * 100 + i, n, "OUT"] for i in range(4)], "cuts", timeout=3000)
        jobs += c.shards("trees", "TreeTrace", [["split", c.seed * 100 + i, n * 3, "OUT"] for i in range(4)], "splits", timeout=3000)
        of = 8 if big else 2
        for m in (2, 3, 4) + ((5,) if big else ()):
            o = of if m > 3 else 1
            jobs += c.shards("trees", "TreeTrace", [[f"allcuts:{m}:{i}:{o}", c.seed, 5000 if big else 1, "OUT"] for i in range(o)], f"all-trees-{m}", timeout=3000)
    elif c.prop == "C24":
        ch = lambda r, cuts, w, s, bug="none": (f'CONSTANTS\n R = {r}\n MaxCuts = {cuts}\n MaxW = {w}\n MaxS = {s}\n Bug = "{bug}"\nINIT Init\nNEXT Next\n'
                                                'INVARIANTS PicksPreferred NoBetter\nCHECK_DEADLOCK FALSE\n')
        for a in [(2, 3, 2, 2), (3, 2, 2, 3)] + ([(3, 3, 2, 3), (2, 4, 3, 3)] if big else []):
            jobs.append(lambda a=a: c.model("CutChoiceModel regions=%d cuts=%d weights=%d surcharges=%d" % a, "CutChoiceModel", ch(*a), timeout=3000))
        for bug in ("sum-first", "small-first", "any-of"):
            jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "CutChoiceModel", ch(3, 2, 2, 3, bug), expect_violation=True))
        n = 6000 if big else 400
        jobs += c.shards("trees", "TreeTrace", [["choice", c.seed * 100 + i, n, "OUT"] for i in range(8)], "choices", timeout=3000)
    else:
        span = lambda n, m, bug="none": (f'CONSTANTS\n N = {n}\n Method = "{m}"\n Bug = "{bug}"\nINIT Init\nNEXT Next\n'
                                         'INVARIANTS SpanningTree FewestCrossings RegionsWhole\nCHECK_DEADLOCK FALSE\n')
        for m in ("kruskal", "wilson"):
            for k in (3, 4) + ((5,) if big and m == "wilson" else ()):
                jobs.append(lambda m=m, k=k: c.model(f"SpanModel {m} n={k}", "SpanModel", span(k, m), timeout=3000))
        jobs.append(lambda: c.model("negative control no-surcharge", "SpanModel", span(4, "kruskal", "no-surcharge"), expect_violation=True))
        jobs.append(lambda: c.model("negative control first-pointer", "SpanModel", span(4, "wilson", "first-pointer"), expect_violation=True))
        n = 4000 if big else 250
        jobs += c.shards("trees", "TreeTrace", [["random", c.seed * 100 + i, n, "OUT"] for i in range(4)], "random", timeout=3000)
        jobs += c.shards("trees", "TreeTrace", [["uniform", c.seed * 100 + i, n // 8, "OUT"] for i in range(4)], "uniform", timeout=3000)
        jobs += c.shards("trees", "TreeTrace", [["count", c.seed * 100 + i, n, "OUT"] for i in range(2)], "count", timeout=3000)
    c.parallel(jobs)
