#!/usr/bin/env python3
"""python3 check.py <property> [quick|thorough]: decides one property.
python3 check.py --setup: makes sure that the tools are there."""
import importlib, os, subprocess, sys, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from lib.common import Check, MachineryError, PY, py_env  # noqa: E402

MODULES = {**{p: "plan" for p in ("C01", "C02", "C03", "C04", "C05", "C15", "C16", "C23")}, "C06": "chain", "C07": "bounds",
           "C08": "contig", "C09": "proposals", "C10": "trees", "C11": "trees", "C24": "trees", "C12": "recom", "C13": "recom", "C25": "recom", "C17": "optimize", "C22": "accept", "C18": "gingles", "C19": "meta", "C14": "seeding", "C20": "geo", "C21": "repro",
           "C26": "system"}

TRUST = (" Trusted: TLC, the encoding of values in the drivers, and that behaviour on the explored sizes is representative;"
         " nothing is proved for sizes beyond those listed in the evidence file.")
NOTES = {
    "plan": ("recorded histories of real plans and behaviours generated by TLC are checked event by event against the trace specification",
             "Exhaustive for the model of incremental plan values on small graphs (all flip/read/drop histories within the bounds); the code is bound to it "
             "by trace validation of thousands of random and TLC-generated histories on graphs of up to 10 nodes." + TRUST),
    "chain": ("all behaviours of the chain model are replayed into MarkovChain and recorded runs are validated",
              "Every sequence of verdicts within the bounds is executed on the real iterator; longer ones are sampled." + TRUST),
    "bounds": ("recorded answers of the real constraints and bounds are validated against the trace specification",
               "Self-configuring bounds are model-checked for all value sequences within the bounds; the code is sampled at and around the bounds." + TRUST),
    "contig": ("local contiguity checks are model-checked against connectivity; every small graph, plan and flip is replayed into the real checks",
               "Exhaustive on all graphs of up to 4 nodes (thorough: 5) both in the model and on the code; larger graphs are sampled." + TRUST),
    "proposals": ("exact outcome distributions of the real proposals (all random choices enumerated) are validated against the specification",
                  "For each sampled plan every random outcome is enumerated, so support and odds are exact there; plans are sampled." + TRUST),
    "trees": ("cut finding, tree drawing and region weights are model-checked; recorded cuts, bipartitions and exact tree distributions of the code are validated",
              "Exhaustive in the model for all trees/graphs of up to 4-5 nodes and small populations; on the code every random choice is enumerated on small graphs "
              "(exact probabilities), larger ones are sampled." + TRUST),
    "recom": ("the ReCom and reversible ReCom steps are model-checked; outcomes of the real proposals with enumerated or sampled random choices are validated",
              "Exhaustive in the model on small graphs; on the code the pair choice and acceptance odds are exact (scripted random source), plans are sampled." + TRUST),
    "optimize": ("runs of the optimizer are recorded at every yield and validated against the run specification",
                 "All score sequences within the bounds are explored in the model; real runs are sampled with adversarial score sequences." + TRUST),
    "accept": ("acceptance thresholds of the real rules are measured with a scripted random source and validated against the specification",
               "Each sampled plan's acceptance probability is determined by bisection of the random draw; schedules are compared at every step of a cycle." + TRUST),
    "gingles": ("scores of the real functions are validated against their definitions in the specification",
                "All small combinations of districts below, at and above the threshold are enumerated on the code; larger ones are sampled." + TRUST),
    "meta": ("recorded streams of diversity statistics and neighbourhoods are validated against the specification",
             "Exhaustive in the model for all short streams; streams and plans on the code are sampled." + TRUST),
    "seeding": ("the recursive partitioning algorithms are model-checked; recorded seed plans are validated against the specification",
                "Exhaustive in the model on all graphs of up to 4-5 nodes; seed plans on the code are sampled over graphs, methods, tolerances and labels." + TRUST),
    "geo": ("dual graphs of all small lattice maps and the life of node data are model-checked; graphs built by the code from drawn maps, and recorded "
            "histories of additions, joins, saving, loading and use, are validated",
            "Exhaustive in the model for all maps of up to 3x3 cells; maps of up to 5x5 cells with uneven cells and up to 7 polygons, and data histories, are sampled "
            "on the code." + TRUST),
    "system": ("whole runs of the real chain and optimizers with real proposals, constraints and updaters, and all runs generated by TLC, are checked event by event "
               "against the specification of the run as a whole",
               "All runs on small graphs within the bounds are explored in the model; real runs are sampled over maps, proposals, sets of constraints, acceptance "
               "rules and times of reading." + TRUST),
    "repro": ("runs of every kind of job under one seed, in fresh processes and in processes with a past, are validated to be equal",
              "Sampled: each job is run three times in two processes after different pasts; one hash seed." + TRUST),
}


def setup():
    for cmd in (["java", "-version"], [PY, "-c", "import gerrychain, networkx, pandas, geopandas"]):
        subprocess.run(cmd, check=True, env=py_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return 0


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        return setup()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    mod = importlib.import_module("checks." + MODULES[prop])
    try:
        mod.run(c)
    except MachineryError as e:
        if not c.violations:
            print(f"ERROR of the check of {prop}: {e}", file=sys.stderr)
            return c.finish(error=e)
    except Exception as e:  # noqa
        traceback.print_exc()
        return c.finish(error=e)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
