"""Shared machinery of the checks: run the code under test in worker processes, run TLC on
specifications and on recorded traces, collect verdicts, write evidence, report violations."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading, zlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("BM25S_REPO", "/repo")
PY = os.environ.get("BM25S_PYTHON", "/opt/venv/bin/python")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(VERIF, "known_findings.txt")


class MachineryError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def worker_env(extra=None):
    env = dict(os.environ)
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        JAX_PLATFORMS="cpu",
        DISABLE_TQDM="1",
        PYTHONHASHSEED=env.get("VERIF_SEED", "1"),
        PYTHONPATH=REPO + os.pathsep + HARNESS,
        OMP_NUM_THREADS="1",
        TOKENIZERS_PARALLELISM="false",
    )
    env.update(extra or {})
    return env


# ---------------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.hangs = 0
        self.violations = []  # (signature, description, replay object)
        self.work = tempfile.mkdtemp(prefix=f"bm25s-{prop}-")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    # -- TLC -----------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=600, args=(), heap="4g", sim=False):
        """Run TLC on spec/<module>.tla in a scratch directory. Returns (returncode, output)."""
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
               "-cp", TLA_CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args,
               os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=meta, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module} after {timeout} s")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    @staticmethod
    def parse_stats(out):
        # (not in the printed records: long runs of digits and commas make the search quadratic)
        out = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            g, d = m[-1]
            return int(g.replace(",", "")), int(d.replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            return int(m[-1].replace(",", "")), 0
        return 0, 0

    def model_check(self, module, cfg=None, timeout=600, expect_violation=None, count=True, **kw):
        """Exhaustively check a design model. expect_violation names an invariant which a
        deliberately broken variant of the model must violate (evidence against vacuity)."""
        t = time.time()
        if expect_violation:
            kw.setdefault("workers", 1)  # deterministic: which property is violated first
        rc, out = self.tlc(module, cfg, timeout=timeout, **kw)
        gen, dist = self.parse_stats(out)
        name = cfg or module
        if expect_violation:
            if rc == 0 or f"{expect_violation} is violated" not in out:
                raise MachineryError(f"model {name}: expected a violation of {expect_violation}\n{out[-3000:]}")
            self.models.append(dict(model=name, states=dist, transitions=gen, violates=expect_violation,
                                    wall_s=round(time.time() - t, 1)))
            return out
        if rc != 0:
            if re.search(r"is violated|Deadlock reached|Assumption .* is false", out):
                raise MachineryError(f"design model {name} violates its own properties\n{out[-6000:]}")
            raise MachineryError(f"TLC failed on {name} (rc {rc})\n{out[-6000:]}")
        if count:
            self.states += dist
            self.transitions += gen
        self.models.append(dict(model=name, states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
        self.log(f"model {name}: {dist} states, {gen} transitions")
        return out

    def prints(self, out, tag):
        """Values printed by the specification as PrintT("@@tag " \\o json)."""
        res = []
        pat = '"@@' + tag + " "
        for line in out.splitlines():
            if line.startswith(pat):
                s = line[1:].rstrip()
                if s.endswith('"'):
                    s = s[:-1]
                s = s[len(tag) + 3:]
                # TLC prints the string with quotes and backslashes escaped
                s = s.replace('\\"', '"').replace("\\\\", "\\")
                try:
                    res.append(json.loads(s))
                except ValueError as e:
                    raise MachineryError(f"cannot parse TLC output: {line[:300]!r}: {e}")
        return res

    def validate(self, module, cases, timeout=800, env=None, workers=8, expect=None, heap="8g"):
        """Trace validation. `cases` is a list of traces (any JSON); the module reads the file
        named by TRACE and explores one behaviour per case, printing @@BAD records (total
        verdicts) and @@EXP records (expectations the harness has to evaluate).
        Each case has a list "ev"; TLC must have visited len(ev)+1 states of every case."""
        if not cases:
            raise MachineryError("no cases to validate")
        for c in cases:
            assert isinstance(c["ev"], list) and c["ev"], "case without events"
        path = os.path.join(self.work, f"{module}-{time.time_ns()}.json")
        cases = readable(cases)
        with open(path, "w") as f:
            json.dump(cases, f)
        e = {"TRACE": path}
        e.update(env or {})
        outside = []
        for attempt_ in range(6):
            rc, out = self.tlc(module, None, env=e, timeout=timeout, workers=workers, heap=heap)
            gen, dist = self.parse_stats(out)
            want = sum(len(c["ev"]) + 1 for c in cases)
            at = self.stopped_at(out, cases) if rc != 0 else None
            if at is None:
                break
            if attempt_ == 3:
                return outside, []
            # An observation which lies outside everything the specification describes (a value of a kind
            # which no correct implementation returns): no clause can be evaluated on it.
            c, l, why = at
            self.log(f"{module}: case {c}, event {l + 1} cannot be judged: {why}")
            outside.append(dict(c=c, l=l + 1, bad=["the observation is none which the specification describes"]))
            if l == 0:
                # (no event is left: an empty trace is not allowed, so the case is replaced by a judged one)
                donor = next((z for i, z in enumerate(cases) if i + 1 not in {o["c"] for o in outside}), None)
                if donor is None:
                    return outside, []
                dup = dict(donor, ev=donor["ev"])
                cases = cases[:c - 1] + [dup] + cases[c:]
                drop = getattr(self, "_dropped", set())
                self._dropped = drop | {c}
            else:
                cases = cases[:c - 1] + [dict(cases[c - 1], ev=cases[c - 1]["ev"][:l])] + cases[c:]
            with open(path, "w") as f:
                json.dump(cases, f)
        if rc != 0 or dist != want:
            keep = os.path.join(VERIF, "out", f"machinery-{self.prop}.json")
            os.makedirs(os.path.dirname(keep), exist_ok=True)
            shutil.copy(path, keep)
            raise MachineryError(f"trace validation {module}: rc={rc}, {dist} states instead of {want}\n"
                                 + out[-6000:])
        self.states += dist
        self.transitions += gen
        os.unlink(path)
        dropped, self._dropped = getattr(self, "_dropped", set()), set()
        bad, exp = ([r for r in self.prints(out, tag) if r.get("c") not in dropped] for tag in ("BAD", "EXP"))
        return outside + bad, exp

    @staticmethod
    def stopped_at(out, cases):
        """Where TLC stopped because an expression could not be evaluated: (case, event, reason)."""
        m = re.search(r"^Error: (.*(?:\n.*){0,6})", out, re.M)
        if not m or re.search(r"is violated|Deadlock|OutOfMemory|StackOverflow", out) or "behavior up to this point" not in out:
            return None
        cs, ls = re.findall(r"^(?:/\\ )?c = (\d+)$", out, re.M), re.findall(r"^(?:/\\ )?l = (\d+)$", out, re.M)
        if not cs or not ls:
            return None
        c, l = int(cs[-1]), int(ls[-1])
        if not (1 <= c <= len(cases) and 0 <= l < len(cases[c - 1]["ev"])):
            return None
        return c, l, m.group(1).replace("\n", " ")[:300]

    # -- running the code under test -------------------------------------------------------------
    def execute(self, executor, cases, shards=6, case_timeout=90, env=None):
        """Run cases (lists of events in case["ev"]) with harness/<executor>.py in worker processes.
        Returns per case a list of observations, one per event executed. When the worker dies or
        hangs, the event in flight gets the observation {"ok": False, "crash": ...} and the
        remaining events of that case are not executed."""
        shards = max(1, min(shards, len(cases)))
        results = [None] * len(cases)
        hung = []

        def run_shard(k):
            todo = list(range(k, len(cases), shards))
            while todo:
                if self.hangs >= 3:
                    break  # code which hangs again and again: what was seen is enough, the rest is not run
                inp = os.path.join(self.work, f"in-{executor}-{k}-{time.time_ns()}.json")
                outp = inp[:-5] + ".out"
                with open(inp, "w") as f:
                    json.dump([dict(cases[i], _i=i) for i in todo], f)
                open(outp, "w").close()
                errp = inp[:-5] + ".err"
                with open(errp, "w") as ef:
                    scratch = tempfile.mkdtemp(prefix="ex-", dir=self.work)
                    p = subprocess.Popen([PY, os.path.join(HARNESS, executor + ".py"), inp, outp],
                                         env=worker_env(dict(env or {}, SCRATCH=scratch, DISABLE_TQDM="1" if k % 2 else "")), stdout=ef,
                                         stderr=subprocess.STDOUT, cwd=scratch, start_new_session=True)
                    size, last = 0, time.time()
                    why = None
                    while True:
                        try:
                            p.wait(0.2)
                            break
                        except subprocess.TimeoutExpired:
                            pass
                        s = os.path.getsize(outp)
                        if s != size:
                            size, last = s, time.time()
                        elif time.time() - last > (case_timeout if self.hangs < 2 else case_timeout / 2):
                            why = "hang"
                            self.hangs += 1
                            try:
                                os.killpg(p.pid, 9)
                            except OSError:
                                p.kill()
                            p.wait()
                            break
                    rc = p.returncode
                done, started, finished = {}, None, False
                with open(outp) as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        r = json.loads(line)
                        if "ready" in r:
                            started = "ready"
                        elif "start" in r:
                            started = r["start"]
                            done[started] = []
                        elif "end" in r:
                            results[r["end"]] = done[r["end"]]
                            started = "ready"
                        elif "finished" in r:
                            finished = True
                        else:
                            done[r["i"]].append(r["o"])
                shutil.rmtree(scratch, ignore_errors=True)
                if finished:
                    if p.returncode not in (0,) and why is None:
                        pass  # died at interpreter exit after finishing: all results are there
                    todo = []
                else:
                    if started is None or started == "ready":
                        with open(errp) as f:
                            raise MachineryError(f"worker {executor} failed (rc {rc}, {why}):\n" + f.read()[-4000:])
                    obs = done[started]
                    with open(errp, errors="replace") as f:
                        tail = f.read()[-1500:]
                    obs.append({"ok": False, "crash": why or f"process died with status {rc}", "dbg": tail})
                    results[started] = obs
                    if why:
                        hung.append((cases[started], len(obs), obs))
                    todo = todo[todo.index(started) + 1:]
                for q in (inp, outp, errp):
                    os.unlink(q)

        with ThreadPoolExecutor(shards) as ex:
            for fut in [ex.submit(run_shard, k) for k in range(shards)]:
                fut.result()
        if any(r is None for r in results):
            for case, l, o in hung[:1]:
                self.violation(f"the code under test hangs [{executor}]", f"event {l} {str(case['ev'][l - 1])[:500]} did not return",
                               {"case": case, "event": l, "observed": o})
            raise MachineryError(f"{executor}: the code under test hung {self.hangs} times, the other cases were not run")
        self.traces += len(cases)
        self.events += sum(len(r) for r in results)
        return results

    def judge(self, module, cases, executor=None, obs=None, shards=6, case_timeout=90, env=None, cls=None,
              tlc_env=None, timeout=800):
        """Execute the cases and validate the recorded traces with spec/<module>.tla, in one phase.
        Events carry what the specification needs; the field "x" is for the executor only. The
        observation may add fields to the event ("ev") which the specification reads."""
        if obs is None:
            obs = self.execute(executor, cases, shards=shards, case_timeout=case_timeout, env=env)
        self.log(f"executed {len(cases)} cases, {sum(map(len, obs))} events")
        traces = []
        for case, os_ in zip(cases, obs):
            ev = []
            for e, o in zip(case["ev"], os_):
                o2 = {k: v for k, v in o.items() if k not in ("msg", "dbg", "ev")}
                ev.append(dict({k: v for k, v in e.items() if k != "x"}, **o.get("ev", {}), obs=o2))
            t = {k: v for k, v in case.items() if k not in ("ev", "x", "_i")}
            traces.append(dict(t, ev=ev))
        bad, exp = self.validate(module, traces, env=tlc_env, timeout=timeout)
        for b in bad:
            case = cases[b["c"] - 1]
            e, o = case["ev"][b["l"] - 1], obs[b["c"] - 1][b["l"] - 1]
            for name in sorted(b["bad"]):
                self.violation(f"{name} [{cls(case, e) if cls else case.get('tag', '')}]",
                               f"event {b['l']} {str(e)[:500]} -> {str(o)[:700]}",
                               {"case": case, "event": b["l"], "clauses": b["bad"], "observed": obs[b["c"] - 1]})
        if cases:
            self.sample({"case": str(cases[0])[:1500], "observed": str(obs[0])[:1500]})
        return obs

    # -- verdict ---------------------------------------------------------------------------------
    def sample(self, obj):
        if len(self.samples) < 3:
            s = json.dumps(obj, default=str)
            self.samples.append(obj if len(s) < 4000 else s[:4000])

    def violation(self, signature, description, replay):
        self.violations.append((signature, description, replay))

    def finish(self):
        known = load_known(self.prop)
        new = []
        printed = set()
        for sig, desc, rep in self.violations:
            k = next((k for k in known if k in sig), None)
            if k is not None:
                if k not in printed:
                    printed.add(k)
                    print(f"KNOWN-FINDING: property={self.prop} {k}")
            else:
                new.append((sig, desc, rep))
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(states=self.states, transitions=self.transitions,
                          traces_validated_against_impl=self.traces, events_executed=self.events,
                          models=self.models, samples=self.samples, **self.extra),
            assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        if new:
            d = os.path.join(VERIF, "out", "replay")
            os.makedirs(d, exist_ok=True)
            seen = {}
            for sig, desc, rep in new:
                seen.setdefault(sig, (desc, rep))
            for n, (sig, (desc, rep)) in enumerate(seen.items()):
                if n >= 10:
                    print(f"... and {len(seen)-10} more distinct violations")
                    break
                path = os.path.join(d, f"{self.prop}-{hashlib.sha1(sig.encode()).hexdigest()[:10]}.json")
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, signature=sig, description=desc, seed=self.seed,
                                   tier=self.tier, replay=rep), f, indent=1, default=str)
                print(f"  {sig}: {desc}"[:1500])
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            return 1
        self.log(f"ok: {self.traces} traces, {self.events} events validated, {self.states} states")
        return 0


def load_known(prop):
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "):
                res.append(line.split(" ", 2)[2])
    return res


def readable(x):
    """What TLC can read: other numbers and null become strings (which equal nothing that is expected)."""
    if isinstance(x, dict):
        return {k: readable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [readable(v) for v in x]
    if x is None or isinstance(x, float) or (isinstance(x, int) and not isinstance(x, bool) and abs(x) >= 2 ** 31):
        return f"no integer: {x!r}"
    return x


def main(fn, prop):
    """Entry point of a check: exit 0 / 1, anything else is a machinery failure."""
    chk = Check(prop)
    try:
        fn(chk)
        rc = chk.finish()
    except MachineryError as e:
        print(f"MACHINERY ERROR in check {prop}: {e}", file=sys.stderr)
        rc = chk.finish() if chk.violations else 3  # (what was found before stands)
        shutil.rmtree(chk.work, ignore_errors=True)
        rc = rc or 3
    sys.exit(rc)


# -- helpers on the worker side ---------------------------------------------------------------
class Worker:
    """Runs the cases of the input file; `handler(case, index)` yields observations."""

    def __init__(self, handler):
        self.inp, self.outp = sys.argv[1:3]
        self.handler = handler

    def run(self):
        with open(self.inp) as f:
            cases = json.load(f)
        with open(self.outp, "a") as out:
            def w(o):
                out.write(json.dumps(o) + "\n")
                out.flush()
            w({"ready": 1})
            for case in cases:
                i = case["_i"]
                w({"start": i})
                for o in self.handler(case):
                    w({"i": i, "o": o})
                w({"end": i})
            w({"finished": 1})
            out.flush()
        sys.stdout.flush()
        os._exit(0)


def omit(kw, defaults, salt):
    """Leave out arguments which are equal to their documented default, about half of the time (always the
    same ones for the same request): a call which relies on a default means the same as one which spells it out."""
    res = {}
    for k, v in kw.items():
        if k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and zlib.crc32((k + str(salt)).encode()) & 1:
            continue
        res[k] = v
    return res


def progress(salt):
    """How progress is shown has no influence on results."""
    n = zlib.crc32(str(salt).encode()) % 8
    return {} if n == 0 else dict(show_progress=n == 1)


def attempt(fn):
    """Outcome of a call: value or exception type."""
    try:
        return {"ok": True, "v": fn()}
    except Exception as e:  # noqa
        return {"ok": False, "exc": type(e).__name__, "msg": str(e)[:300]}
