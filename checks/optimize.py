"""C17: optimization runs."""
import json, os

INV = "INVARIANTS BestIsBest BurstsStartAtBest LengthRule\nCHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\n"


def cfg(s, steps, kind, ln=2, buf=1, maximize=True, bug="none"):
    return (f'CONSTANTS\n S = {s}\n Steps = {steps}\n Kind = "{kind}"\n BurstLen = {ln}\n Buffer = {buf}\n'
            f' Maximize = {"TRUE" if maximize else "FALSE"}\n Bug = "{bug}"\n')


def run(c):
    big = c.tier == "thorough"
    jobs = []
    # scores are only compared: 2 or 3 different ones
    for args in ([(3, 7, "fixed", 3), (3, 7, "fixed", 2, 1, False), (2, 10, "variable", 2, 1), (2, 10, "variable", 2, 2, False)]
                 + ([(3, 9, "fixed", 3), (3, 8, "variable", 2, 1), (2, 13, "variable", 2, 1), (2, 13, "variable", 2, 2), (3, 9, "variable", 2, 2, False)] if big else [])):
        jobs.append(lambda a=args: c.model("OptModel %s" % (a,), "OptModel", cfg(*a) + INV, timeout=3000))
    for bug, a in (("tie-improves", (2, 8, "variable")), ("keeps-first", (2, 4, "fixed")), ("continues", (2, 6, "fixed")), ("early", (2, 9, "variable", 2, 2))):
        jobs.append(lambda a=a, bug=bug: c.model(f"negative control {bug}", "OptModel", cfg(*a, *([2, 1, True][len(a) - 3:]), bug) + INV, expect_violation=True))

    def replay(i, a):
        def f():
            r = c.model(f"OptModel {a} (behaviours written out)", "OptModel", cfg(*a) + "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=2000)
            sc = [json.loads(json.loads(x)) for x in sorted({l for l in r.out.splitlines() if l.startswith('"{')})]
            sc = sc[::max(1, len(sc) // (40000 if big else 2000))]
            path = os.path.join(c.tmp, f"scen{i}.jsonl")
            with open(path, "w") as fh:
                fh.write("".join(json.dumps(x) + "\n" for x in sc))
            tr = os.path.join(c.tmp, f"gen{i}.json")
            c.record("optimize", [c.seed, 0, tr, path], timeout=1500)
            c.validate("OptTrace", tr, c.trace_cfg(), f"generated-{i}", timeout=1500)
        return f
    for i, a in enumerate([(3, 6, "fixed", 3), (3, 6, "fixed", 2, 1, False), (2, 8, "variable", 2, 1), (2, 8, "variable", 2, 1, False)]
                          + ([(2, 10, "variable", 2, 1), (2, 10, "variable", 2, 2)] if big else [])):
        jobs.append(replay(i, a))
    n = 6000 if big else 500
    jobs += c.shards("optimize", "OptTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(6)], "runs", timeout=2500)
    c.parallel(jobs)
