"""C01-C05, C15, C16: histories of plans."""
import json, os

COUNT = {"C01": 200, "C02": 400, "C03": 300, "C04": 250, "C05": 200, "C15": 220, "C16": 250, "C23": 220}
KINDS = {"C01": [], "C02": ["cut", "cutp"], "C03": ["tally"], "C04": ["ext", "int"],
         "C05": ["cut", "tally"], "C15": ["tally"], "C16": ["cty"], "C23": ["cutp", "int"]}
INV = "INVARIANTS PartsExact FlipExact ValuesExact CountiesExact TotalsConserved\nPROPERTY Frozen\n"
BUGS = [("no-obsolete", "cut"), ("still-cut", "cutp"), ("still-cut", "int"), ("nan-flows", "tally"),
        ("forgets-old-split", "cty"), ("stale-parent", "cut"), ("stale-parent", "tally"), ("stale-parent", "ext")]


def consts(shape, k, plans, kinds, mf, bug="none", drops="TRUE"):
    ks = ", ".join(f'"{x}"' for x in kinds)
    return (f'CONSTANTS\n Shape = "{shape}"\n K = {k}\n MaxPlans = {plans}\n Kinds = {{{ks}}}\n'
            f' Drops = {drops}\n MaxFlip = {mf}\n Bug = "{bug}"\n')


def model_cfg(*a, **kw):
    return consts(*a, **kw) + "INIT Init\nNEXT Next\n" + INV + "CHECK_DEADLOCK FALSE\n"


def gen_cfg(depth, *a, **kw):
    return consts(*a, **kw) + f" Depth = {depth}\nINIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"


def run(c):
    big = c.tier == "thorough"
    jobs = []
    n = COUNT[c.prop] * (15 if big else 1)
    for kd in ([[k] for k in KINDS[c.prop]] or [[]]):
        name = "+".join(kd) or "plans"
        jobs.append(lambda kd=kd, name=name: c.model(f"PlanModel path3 {name}", "PlanModel", model_cfg("path3", 2, 3, kd, 3)))
        jobs.append(lambda kd=kd, name=name: c.model(f"PlanModel tri k=3 {name}", "PlanModel", model_cfg("tri", 3, 3, kd, 1)))
        if big:
            for shape, k, p, mf in (("square", 2, 3, 2), ("paw", 3, 3, 1), ("island", 2, 3, 2), ("path3", 2, 4, 1), ("tri", 3, 3, 2)):
                jobs.append(lambda kd=kd, name=name, shape=shape, k=k, p=p, mf=mf: c.model(
                    f"PlanModel {shape} k={k} plans={p} flip={mf} {name}", "PlanModel", model_cfg(shape, k, p, kd, mf), timeout=3000))
        for bug, k in BUGS:
            if [k] == kd:
                jobs.append(lambda bug=bug, k=k: c.model(f"negative control {bug}/{k}", "PlanModel",
                                                         model_cfg(*(("tri", 3, 3, [k], 1) if k in ("cutp", "int") else ("path3", 2, 3, [k], 3)), bug=bug),
                                                         expect_violation=True))

    def replay(i, shape, k, plans, mf, depth):
        def f():
            lim = 1500 if big else 250
            sc = c.generate("PlanGen", gen_cfg(depth, shape, k, plans, KINDS[c.prop][:1] or ["cut"], mf),
                            lim, depth + 2, lim * 2, c.seed * 10 + i)
            path = os.path.join(c.tmp, f"scen-{i}.jsonl")
            with open(path, "w") as out:
                for x in sc:
                    out.write(json.dumps(x) + "\n")
            tr = os.path.join(c.tmp, f"gen-{i}.json")
            c.record("plan", [c.prop, c.seed * 77 + i, 0, tr, path], timeout=900)
            c.validate("PlanTrace", tr, c.trace_cfg(), f"generated-{i}", timeout=900)
        return f
    jobs.append(replay(0, "square", 3, 4, 2, 8))
    jobs.append(replay(1, "path3", 2, 3, 3, 7))
    if big:
        jobs.append(replay(2, "paw", 2, 5, 3, 10))
        jobs.append(replay(3, "island", 3, 4, 2, 9))
    jobs += c.shards("plan", "PlanTrace",
                     [[c.prop, c.seed * 1000 + i, n, "OUT"] for i in range(8 if not big else 24)], "histories", timeout=1500)
    if c.prop == "C05":
        jobs += c.shards("updaters", "UpdatersTrace", [["own", c.seed, 8000 if big else 800, "OUT"]], "own-updaters")
        # known finding: one pair of plans of a class, kept in a scenario of its own
        jobs += c.shards("updaters", "UpdatersTrace", [["leak", c.seed, 1, "OUT"]], "updaters-leak")
    c.parallel(jobs)
