"""Shared machinery of the checks: TLC runs, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself failed: neither 'held' nor 'violated'."""


class CodeRaised(MachineryError):
    """The code under test raised where the driver expects no exception."""

    def __init__(self, driver, args, err):
        super().__init__(f"driver {driver} {args}: the code under test raised\n{err[-4000:]}")
        self.err = err


def raised_in_code(err):
    """Whether the innermost frame of a traceback, not counting libraries, is gerrychain's."""
    frames = re.findall(r'File "([^"]+)", line', err.split("Traceback (most recent call last):")[-1])
    own = [f for f in frames if "site-packages" not in f and "/lib/python" not in f and not f.startswith("<")]
    return bool(own) and "/gerrychain/" in own[-1]


def not_understood(err):
    """Whether a driver failed at making sense of what the code answered."""
    last = (err.strip().splitlines() or [""])[-1]
    return bool(re.match(r"(Key|Index|Type|Value|Attribute|Assertion|ZeroDivision|Overflow|Runtime)Error|StopIteration|Recursion", last))


class TLCResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states", out)
        self.generated, self.distinct = (
            tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0))
        if not m:  # simulation mode
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                self.generated = int(m[-1])
        self.violated = rc in (11, 12, 13)
        self.ok = rc == 0

    def last_state(self):
        """Variables of the last state printed in an error trace (raw text)."""
        blocks = re.split(r"\nState \d+:[^\n]*\n", self.out)
        if len(blocks) < 2:
            return {}
        txt = blocks[-1].split("\n\n")[0]
        res = {}
        for part in re.split(r"(?m)^/\\ ", txt):
            m = re.match(r"(\w+) = ([\s\S]*)", part)
            if m:
                res[m.group(1)] = m.group(2).strip()
        if not res:
            m = re.match(r"(\w+) = ([\s\S]*)", txt)
            if m:
                res[m.group(1)] = m.group(2).strip()
        return res


def run_tlc(module, cfg, tmp, env=None, workers=1, timeout=600, extra=(), heap="2g"):
    """Runs TLC on /verif/spec/<module>.tla with the given cfg text."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=tmp)
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-XX:CICompilerCount=2", "-Xmx" + heap, "-Xss64m", "-cp", JAVA_CP,
           "-DTLA-Library=" + SPEC,
           "tlc2.TLC", "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
           "-workers", str(workers), "-config", cfgf, *extra,
           os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         env=e, cwd=d, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        rc = -9
    shutil.rmtree(d, ignore_errors=True)
    return TLCResult(rc, out, time.time() - t)


def py_env():
    e = dict(os.environ)
    e.update(PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONPATH=os.environ.get("VERIF_REPO", "/repo") + os.pathsep + ROOT, PYTHONWARNINGS="ignore")
    e.pop("PYTHONPYCACHEPREFIX", None)
    return e


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.models, self.samples, self.violations, self.notes = [], [], [], []
        self.known = []
        self.counts = {}
        self.assumptions = []
        self.lock = threading.Lock()

    # -- models ----------------------------------------------------------
    def model(self, name, module, cfg, workers=2, timeout=600, expect_violation=False,
              extra=(), env=None):
        """Exhaustive TLC run of the specification itself."""
        r = run_tlc(module, cfg, self.tmp, workers=workers, timeout=timeout, extra=extra, env=env)
        if expect_violation:
            if not r.violated:
                raise MachineryError(f"negative control {name} was not refuted\n" + r.out[-3000:])
        elif not r.ok:
            raise MachineryError(f"model {name} failed (rc {r.rc})\n" + r.out[-6000:])
        elif r.distinct == 0:
            raise MachineryError(f"model {name} has no states")
        with self.lock:
            if not expect_violation:
                self.states += r.distinct
                self.transitions += r.generated
            self.models.append(dict(name=name, module=module, distinct_states=r.distinct,
                                    states_generated=r.generated, wall_s=round(r.wall, 1),
                                    expected="refuted" if expect_violation else "holds"))
        return r

    def generate(self, module, cfg, limit, depth, num, seed, timeout=300):
        """Behaviours written out by TLC in simulation mode, as JSON values."""
        r = run_tlc(module, cfg, self.tmp, timeout=timeout,
                    extra=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed)])
        if not r.ok:
            raise MachineryError(f"generation with {module} failed (rc {r.rc})\n" + r.out[-4000:])
        seen, groups = set(), {}
        for line in r.out.splitlines():
            if line.startswith('"{') and line not in seen:
                seen.add(line)
                try:
                    x = json.loads(json.loads(line))
                except ValueError:
                    continue
                groups.setdefault(json.dumps(x["ops"][:-1], sort_keys=True), []).append(x)
        out, i = [], 0
        while len(out) < limit and groups:     # few behaviours per common prefix
            for k in list(groups):
                g = groups[k]
                out.append(g.pop((7 * i) % len(g)))
                if not g:
                    del groups[k]
            i += 1
        if not out:
            raise MachineryError(f"generation with {module} gave no behaviours\n" + r.out[-3000:])
        with self.lock:
            self.models.append(dict(name=f"{module} (simulation)", module=module, distinct_states=0,
                                    states_generated=r.generated, wall_s=round(r.wall, 1),
                                    behaviours=len(out[:limit]), expected="generated"))
        return out[:limit]

    # -- traces ----------------------------------------------------------
    def record(self, driver, args, timeout=600):
        """Runs a driver (python -m harness.<driver>) against /repo."""
        cmd = [PY, "-m", "harness." + driver, *map(str, args)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             cwd=ROOT, env=py_env(), start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            out, err = p.communicate()
            raise MachineryError(f"driver {driver} {args} timed out\n{err[-3000:]}")
        if p.returncode != 0 and (raised_in_code(err) or not_understood(err)):
            raise CodeRaised(driver, args, err)
        if p.returncode != 0:
            raise MachineryError(f"driver {driver} {args} failed rc={p.returncode}\n{err[-4000:]}")
        return out

    def trace_cfg(self, extra="", pre=""):
        return f"INIT {pre}Init\nNEXT {pre}Next\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n" + extra

    def shards(self, driver, module, arglists, label, cfg_extra="", timeout=600, pre=""):
        """Record-and-validate jobs: one driver process and one TLC run each."""
        def job(i, args):
            def f():
                out = os.path.join(self.tmp, f"{label}-{i}.json")
                a = [out if x == "OUT" else x for x in args]
                try:
                    self.record(driver, a, timeout=timeout)
                except CodeRaised as e:
                    return self.raised(f"{label}-{i}", e)
                self.validate(module, out, self.trace_cfg(cfg_extra, pre), f"{label}-{i}", timeout=timeout)
            return f
        return [job(i, a) for i, a in enumerate(arglists)]

    def raised(self, label, e):
        last = (e.err.strip().splitlines() or ["?"])[-1]
        self.violation(label, ["raised:" + last[:200]], None, 0, dict(traceback=e.err[-4000:]))

    def validate(self, module, trace, cfg, label, timeout=600, workers=1):
        """Checks a recorded trace file against a trace specification."""
        with open(trace) as f:
            eps = json.load(f)
        n_ev = sum(len(e["ev"]) for e in eps)
        r = run_tlc(module, cfg, self.tmp, env={"TRACE": trace}, workers=workers, timeout=timeout)
        if r.violated:
            st = r.last_state()
            ep, l = int(st.get("ep", "0")), int(st.get("l", "0"))
            bad = re.findall(r'"([^"]*)"', st.get("bad", ""))
            e = eps[ep - 1] if 0 < ep <= len(eps) else None
            known = self.is_known(label, bad)
            if known:
                with self.lock:
                    self.known.append(known)
            else:
                self.violation(label, bad, e, l - 1, st)
        elif not r.ok and "Overflow when computing" in r.out:
            # what was observed is so far from anything expected that it cannot even be computed with
            st = r.last_state()
            ep, l = int(st.get("ep", "0")), int(st.get("l", "0"))
            self.violation(label, ["value-out-of-range"], eps[ep - 1] if 0 < ep <= len(eps) else None, l, st)
        elif not r.ok and re.search(r"Attempted to|Error: Evaluating|The exception was a", r.out) and not re.search(
                r"OutOfMemory|StackOverflow|Parsing or semantic|JsonDeserialize", r.out):
            # the trace is no behaviour of the specification: an answer does not even have the right shape
            st = r.last_state()
            ep, l = int(st.get("ep", "0")), int(st.get("l", "0"))
            m = re.search(r"Attempted to[^\n]*", r.out)
            self.violation(label, ["answer-of-another-shape"], eps[ep - 1] if 0 < ep <= len(eps) else None, l,
                           dict(st, tlc=m.group(0)[:300] if m else ""))
        elif not r.ok:
            raise MachineryError(f"trace validation {module}/{label} failed (rc {r.rc})\n" + r.out[-5000:])
        elif r.distinct != n_ev + len(eps):
            raise MachineryError(f"trace validation {module}/{label}: {r.distinct} states for "
                                 f"{n_ev} events in {len(eps)} episodes\n" + r.out[-3000:])
        with self.lock:
            self.traces += len(eps)
            self.events += n_ev
            for e in eps:
                for k in e.get("tags", []):
                    self.counts[k] = self.counts.get(k, 0) + 1
            if len(self.samples) < 3 and eps:
                s = json.dumps(eps[min(1, len(eps) - 1)])
                self.samples.append(dict(source=label, episode=s[:1500]))
        return r

    def is_known(self, label, clauses):
        """A genuine defect listed in known_findings.json, identified by the
        scenario (label) and the clauses that fail in it."""
        for f in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]:
            if f["property"] == self.prop and f["scenario"] == label and set(clauses) <= set(f["clauses"]):
                return f["what_fails"]
        return None

    def violation(self, label, clauses, episode, idx, state=None):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{label}.json")
        with self.lock:
            with open(path, "w") as f:
                json.dump(dict(property=self.prop, source=label, failing_clauses=clauses,
                               event_index=idx,
                               event=(episode["ev"][idx - 1] if episode and 0 < idx <= len(episode["ev"]) else None),
                               episode=episode, tlc_state=state, seed=self.seed, tier=self.tier), f, indent=1)
            self.violations.append(dict(source=label, clauses=clauses, replay=path))

    def parallel(self, jobs, width=None):
        """Runs callables concurrently; re-raises the first machinery error."""
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(width or NCPU) as ex:
            futs = [ex.submit(j) for j in jobs]
            errs = []
            for f in futs:
                try:
                    f.result()
                except CodeRaised as e:
                    self.raised("generated", e)
                except Exception as e:  # noqa
                    errs.append(e)
        for e in errs:
            if not self.violations:
                raise e
            self.notes.append("also: " + str(e)[:500])

    # -- result ----------------------------------------------------------
    def finish(self, level="model_checking", error=None):
        os.makedirs(EVID, exist_ok=True)
        if error:
            self.notes.append("ERROR of the check: " + str(error)[-3000:])
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events,
                                models=sorted(self.models, key=lambda m: m["name"]),
                                episode_tags=dict(sorted(self.counts.items())),
                                samples=self.samples or [dict(note="none")]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations), violation_details=self.violations,
                  known_findings=self.known, notes=self.notes)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        if self.violations:
            for v in self.violations:
                print(f"  {v['source']}: {', '.join(v['clauses'])}")
                print(f"VIOLATION property={self.prop} replay={v['replay']}")
            return 1
        if error:
            return 2
        print(f"{self.prop}: held ({self.states} model states, {self.traces} traces / "
              f"{self.events} events validated, {time.time()-self.t0:.1f}s)")
        return 0
