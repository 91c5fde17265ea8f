"""C06: the Markov chain."""
import json, os

INV = ("INVARIANTS ExactlyN StartsAtInitial StepsAreLegal NothingInvalid AskedOncePerStep ShortLinks\n"
       "CHECK_DEADLOCK FALSE\nINIT Init\nNEXT Next\n")


def cfg(n, props, iters, bug="none"):
    return f'CONSTANTS\n MaxN = {n}\n MaxProposals = {props}\n MaxIters = {iters}\n Bug = "{bug}"\n'


def run(c):
    big = c.tier == "thorough"
    jobs = [lambda: c.model("ChainModel", "ChainModel", cfg(*((5, 9, 2) if big else (4, 7, 2))) + INV, timeout=2000)]
    for bug in ("no-reset", "counts-invalid", "accepts-invalid", "keeps-ancestors"):
        jobs.append(lambda bug=bug: c.model(f"negative control {bug}", "ChainModel", cfg(4, 7, 2, bug) + INV, expect_violation=True))

    def replay():
        # every behaviour of the model up to the bound, replayed
        r = c.model("ChainModel (behaviours written out)", "ChainModel",
                    cfg(*((4, 7, 2) if big else (3, 6, 2))) + "INIT Init\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1, timeout=2000)
        seen = sorted({l for l in r.out.splitlines() if l.startswith('"{')})
        sc = [json.loads(json.loads(x)) for x in seen]
        sc = [x for x in sc if complete(x)]
        step = 1 if big else max(1, len(sc) // 4000)
        sc = sc[::step]
        path = os.path.join(c.tmp, "scen.jsonl")
        with open(path, "w") as f:
            f.write("".join(json.dumps(x) + "\n" for x in sc))
        tr = os.path.join(c.tmp, "gen.json")
        c.record("chain", [c.seed, 0, tr, path], timeout=1500)
        c.validate("ChainTrace", tr, c.trace_cfg(), "generated", timeout=1500)
    jobs.append(replay)
    n = 4000 if big else 500
    jobs += c.shards("chain", "ChainTrace", [[c.seed * 100 + i, n, "OUT"] for i in range(8)], "runs", timeout=1500)
    c.parallel(jobs)


def complete(x):
    """Within one call of next() invalid proposals are followed by a valid one:
    an iteration cannot be left right after an invalid proposal."""
    o = x["ops"] + ["iter"]
    return all(not (o[i] == "bad" and o[i + 1] == "iter") for i in range(len(o) - 1))
