#!/usr/bin/env python3
"""Development only: makes and confirms planted bugs.
tools/plant.py make BUGS.py   definitions -> /verif/seeded/<id>/, confirmed in scratch copies
tools/plant.py run [ID ...]   runs the check of each bug's property against a scratch copy
A definition: B(id, property, needs, breaks, [(file, old, new), ...], demo)."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
RES = os.path.join(ROOT, "tools", "caught.json")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
DEMO = '#!/bin/bash\nPYTHONHASHSEED=0 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def copy():
    d = tempfile.mkdtemp(prefix="bug-", dir="/tmp/w")
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm base", shell=True, cwd=d, check=True)
    return d


def demo(path, d):
    return subprocess.run(["bash", os.path.join(path, "demo.sh")], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)


def make(b):
    d = copy()
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"edit does not apply once in {f}: {s.count(old)}"
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=d, capture_output=True, text=True).stdout
        t = os.path.join(d, "..", os.path.basename(d) + "-demo")
        os.makedirs(t)
        open(os.path.join(t, "demo.sh"), "w").write(DEMO)
        open(os.path.join(t, "demo.py"), "w").write(b["demo"])
        r1 = demo(t, d)
        r0 = demo(t, "/repo")
        if r0.returncode != 0:
            return b["id"], "demo fails on the unchanged tree\n" + r0.stdout + r0.stderr[-1500:]
        if r1.returncode == 0:
            return b["id"], "demo passes with the change\n" + r1.stdout
        r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-cov", "--timeout=300", "-o", "junit_family=xunit2",
                            "--junitxml=" + t + "/j.xml", "tests"], cwd=d, env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", t + "/r.json", "junit:" + t + "/j.xml"])
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = set(base["passed"] if isinstance(base, dict) and "passed" in base else base.get("stable", base))
        res = json.load(open(t + "/r.json"))
        lost = base - set(res["passed"])
        if lost:
            return b["id"], "tests fail: " + ", ".join(sorted(lost)[:5])
        o = os.path.join(SEED, b["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(patch)
        shutil.copy(t + "/demo.sh", o)
        shutil.copy(t + "/demo.py", o)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(o + "/meta.json", "w"), indent=1)
        return b["id"], "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + "-demo", ignore_errors=True)


def run(i):
    m = json.load(open(os.path.join(SEED, i, "meta.json")))
    d = copy()
    try:
        r = subprocess.run(["git", "apply", os.path.join(SEED, i, "patch.diff")], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, m["property"], "does not apply: " + r.stderr[:200]
        v = tempfile.mkdtemp(prefix="vc-", dir="/tmp/w")
        for x in ("lib", "spec", "harness", "checks", "check.py", "known_findings.json"):
            s = os.path.join(ROOT, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, x))
        r = subprocess.run(["python3", "check.py", m["property"]], cwd=v, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        shutil.rmtree(v, ignore_errors=True)
        out = [l for l in r.stdout.splitlines() if not l.startswith(("VIOLATION", "KNOWN"))]
        return i, m["property"], ("CAUGHT " if r.returncode == 1 and "VIOLATION property=" + m["property"] in r.stdout else f"MISSED rc={r.returncode} ") + \
            "; ".join(out)[:160] + (r.stderr[-300:] if r.returncode == 2 else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        bugs = []
        def B(id, property, needs, breaks, edits, demo):
            bugs.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
        exec(open(sys.argv[2]).read())
        sel = sys.argv[3:]
        with ThreadPoolExecutor(4) as ex:
            for i, r in ex.map(make, [b for b in bugs if not sel or b["id"] in sel]):
                print(i, r, flush=True)
    elif sys.argv[1] == "table":
        res = json.load(open(RES))
        rows = ["| bug | needs | breaks | caught by its check | clauses |", "|---|---|---|---|---|"]
        for i in sorted(os.listdir(SEED)):
            m = json.load(open(os.path.join(SEED, i, "meta.json")))
            x = res.get(i, {})
            rows.append("| %s | %s | %s | %s | %s |" % (i, m["needs"], m["what_it_breaks"], x.get("verdict", "?") + (", missed at first" if x.get("missed") else ""), x.get("clauses", "")))
        p = os.path.join(ROOT, "DESIGN.md")
        s = open(p).read()
        a, b = s.index("<!-- BUGS -->"), s.index("<!-- /BUGS -->")
        open(p, "w").write(s[:a] + "<!-- BUGS -->\n" + "\n".join(rows) + "\n" + s[b:])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        with ThreadPoolExecutor(2) as ex:
            for r in ex.map(run, ids):
                print(*r, flush=True)
                res = json.load(open(RES)) if os.path.exists(RES) else {}
                x = res.setdefault(r[0], {})
                x["verdict"] = r[2].split()[0].lower()
                if x["verdict"] != "caught":
                    x["missed"] = 1
                x["clauses"] = ", ".join(sorted({c.strip() for c in re.findall(r": ([^;]*)", r[2]) for c in c.split(",")})[:3]).replace("|", "/") if x["verdict"] == "caught" else ""
                json.dump(res, open(RES, "w"), indent=1, sort_keys=True)
