"""C26: whole runs."""
import json, os

INV = "INVARIANTS EveryStateValid ValuesExact CountsRight VerdictExact\nCHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\n"


def cfg(shape, k, pct, cons, n, ops, mf, bug="none"):
    cs = ", ".join(f'"{x}"' for x in cons)
    return (f'CONSTANTS\n Shape = "{shape}"\n K = {k}\n Pct = {pct}\n Cons = {{{cs}}}\n'
            f' MaxN = {n}\n MaxOps = {ops}\n MaxFlip = {mf}\n Bug = "{bug}"\n')


ALL = ("contig", "pop", "cutself")


def run(c):
    big = c.tier == "thorough"
    jobs = []
    sizes = [("path4", 2, 8, ALL, 3, 4, 1), ("square", 2, 16, ("contig", "cutself"), 3, 4, 1), ("path3", 2, 16, ("pop", "cutself"), 3, 3, 2)]
    if big:
        sizes += [("path4", 2, 16, ALL, 4, 5, 2), ("square", 3, 16, ALL, 4, 5, 1), ("paw", 2, 8, ALL, 4, 5, 2), ("path4", 3, 16, ("pop", "contig"), 4, 5, 1)]
    for s in sizes:
        jobs.append(lambda s=s: c.model("SystemModel %s k=%d %s" % (s[0], s[1], "+".join(s[3])), "SystemModel", cfg(*s) + INV, timeout=3000))
    for bug in ("keeps-old-cuts", "looks-at-target-only", "rejected-leaks", "takes-invalid"):
        jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "SystemModel", cfg("path4", 2, 16, ALL, 3, 4, 1, bug) + INV, expect_violation=True))

    def replay(i, s):
        def f():
            lim = 2000 if big else 250
            sc = c.generate("SystemModel", cfg(*s) + "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", lim, s[5] * 2 + 2, lim * 2, c.seed * 10 + i)
            path = os.path.join(c.tmp, f"scen-{i}.jsonl")
            with open(path, "w") as out:
                out.write("".join(json.dumps(x) + "\n" for x in sc))
            tr = os.path.join(c.tmp, f"gen-{i}.json")
            c.record("system", [c.seed * 7 + i, 0, tr, path], timeout=900)
            c.validate("SystemTrace", tr, c.trace_cfg(pre="S"), f"generated-{i}", timeout=900)
        return f
    jobs.append(replay(0, ("square", 2, 16, ("contig", "cutself"), 5, 9, 2)))
    jobs.append(replay(1, ("paw", 3, 16, ("contig", "pop"), 5, 9, 2)))
    n = 1500 if big else 90
    jobs += c.shards("system", "SystemTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(24 if big else 8)], "runs", timeout=1700, pre="S")
    c.parallel(jobs)
