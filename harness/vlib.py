"""Shared machinery of the checks: running TLC, sharding cases, verdicts, evidence.

Everything a run writes goes to a scratch directory that is removed at the end,
except evidence/<id>.json and, for a violation, out/<id>/*.json (the replay file).
"""
import atexit, functools, importlib, inspect, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


import threading
_build_lock = threading.Lock()


class Infra(Exception):
    """The machinery itself failed; not a verdict on the code."""


class Unjudgeable(Infra):
    """TLC could not evaluate what was recorded."""


class Endless(BaseException):
    """A call into the code under test does not return (not an Exception: that code may catch those)."""


def like(module, name=None):
    """A stand-in for the method `name` (Class.method) of a module of the code, called as the code calls that method: whatever it calls
    the parameters, the stand-in gets them by position. Without a name, module is the method itself."""
    def deco(fn):
        n = len(inspect.signature(fn).parameters) - 1
        real = [] if name else [inspect.signature(module)]

        @functools.wraps(fn)
        def stand_in(self, *args, **kw):
            if not kw:
                return fn(self, *args[:n])
            if not real:
                cls, meth = name.split(".")
                real.append(inspect.signature(getattr(getattr(importlib.import_module(module), cls), meth)))
            b = real[0].bind(self, *args, **kw)
            b.apply_defaults()
            return fn(self, *list(b.arguments.values())[1:n + 1])
        return stand_in
    return deco


def watch_calls(limit=150.0, tick=2.0):
    """Raise Endless in the code under test when one call from the harness into it has used more than limit seconds (None: stop watching)."""
    if limit is None:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        return
    src = os.path.join(REPO, "src") + os.sep
    state = {"call": None, "since": 0.0, "rss": 0}

    def rss():
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * 4096

    def look(signum, frame):
        call = None
        while frame is not None:
            if frame.f_code.co_filename.startswith(src):
                call = frame
            frame = frame.f_back
        now = time.thread_time()
        if call is None or call is not state["call"]:
            state["call"], state["since"], state["rss"] = call, now, rss()
        elif rss() - state["rss"] > 4 << 30:
            state["call"] = None
            raise Endless(f"{call.f_code.co_name} ({os.path.relpath(call.f_code.co_filename, src)}) has not returned and used 4 GB of memory")
        elif now - state["since"] > limit:
            state["call"] = None
            raise Endless(f"{call.f_code.co_name} ({os.path.relpath(call.f_code.co_filename, src)}) did not return within {limit:.0f} s of computing")

    signal.signal(signal.SIGALRM, look)
    signal.setitimer(signal.ITIMER_REAL, tick, tick)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        base = os.environ.get("TMPDIR_BASE") or "/tmp"
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=base)
        atexit.register(shutil.rmtree, self.scratch, True)
        self.rng = random.Random(f"{prop}/{seed}")
        self.states = self.transitions = 0       # model checking of the design
        self.validated = 0                       # traces/cases of the code judged by the spec
        self.samples = []
        self.assumptions = []
        self.coverage = {}
        self.fails = []                          # (key, clause, detail, payload)
        self.log = []
        self._n = 0

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def say(self, *a):
        m = " ".join(str(x) for x in a)
        self.log.append(m)
        print(f"[{self.prop} {time.time()-self.t0:6.1f}s] {m}", flush=True)

    def fail(self, key, clause, detail="", payload=None):
        self.fails.append((str(key), clause, detail, payload))

    def path(self, name):
        self._n += 1
        return os.path.join(self.scratch, f"{self._n:04d}-{name}")

    # ---- derivative cache ------------------------------------------------------
    def prewarm_start(self, groups=("pq", "gen", "rest")):
        """Start deriving the component equations in parallel processes (see prewarm.py)."""
        self._warm = [subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(VERIF, "harness", "prewarm.py"), g],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for g in groups]

    def prewarm_wait(self):
        for p in self._warm:
            try:
                p.wait(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
        self.say("component equations derived")

    # ---- TLC -----------------------------------------------------------------
    def build_java(self):
        out = os.path.join(self.scratch, "classes")
        with _build_lock:
          if not os.path.isdir(out):
            os.makedirs(out)
            src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java"))) if f.endswith(".java")]
            r = subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", out] + src, capture_output=True, text=True)
            if r.returncode:
                raise Infra("javac: " + r.stderr)
        return out

    def tlc(self, module, cfg=None, env=None, workers=1, heap="3g", timeout=800, extra=(), ok_codes=(0,)):
        """Run TLC on spec/<module>.tla; returns (exit code, stdout, stats)."""
        classes = self.build_java()
        md = self.path("md")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1,min(workers,4))}",
               "-Djava.io.tmpdir=" + self.scratch, "-DTLA-Library=" + SPEC,
               "-cp", f"{classes}:{TLA}:{COMM}", "tlc2.TLC", "-metadir", md, "-noGenerateSpecTE",
               "-workers", str(workers), "-config", os.path.join(SPEC, cfg or module + ".cfg"), *extra,
               os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=self.scratch)
        except subprocess.TimeoutExpired:
            raise Infra(f"TLC timed out on {module}/{cfg}")
        shutil.rmtree(md, True)
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        if r.returncode not in ok_codes:
            kind = Unjudgeable if r.returncode > 0 and "Error:" in out and "OutOfMemory" not in out + r.stderr and "semantic analysis failed" not in out else Infra
            raise kind(f"TLC exit {r.returncode} on {module}/{cfg}:\n{out[-6000:]}\n{r.stderr[-2000:]}")
        return r.returncode, out, st

    def model_check(self, module, cfg=None, env=None, workers=4, heap="4g", timeout=800, min_states=2, extra=()):
        """The design must satisfy its properties (TLC exit 0); counted as model checking."""
        rc, out, (gen, dist) = self.tlc(module, cfg, env, workers, heap, timeout, extra=extra)
        if dist < min_states:
            raise Infra(f"{module}/{cfg}: only {dist} states, expected at least {min_states}")
        self.states += dist
        self.transitions += gen
        self.say(f"TLC {cfg or module}: {gen} states generated, {dist} distinct, properties hold")
        return out

    def prints(self, out, tag):
        """Lines a specification printed as PrintT("TAG|a|b|...")."""
        res = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                line = line[1:-1]
            if line.startswith(tag + "|"):
                res.append(line.replace('\\"', '"').split("|")[1:])
        return res

    def dump_cases(self, cases, name="cases.json"):
        p = self.path(name)
        with open(p, "w") as f:
            json.dump(cases, f)
        return p

    def judge_cases(self, module, cases, cfg=None, shard=None, heap="3g", env=None, tag="FAIL", timeout=800):
        """Have spec/<module>.tla judge every case (a list of JSON objects, each with an "id").

        The module prints FAIL|<id>|<clause>|<detail> for each clause that a case breaks
        and DONE|<n> after the last case; anything else is an infrastructure error.
        """
        if not cases:
            raise Infra("no cases for " + module)
        if len({c["id"] for c in cases}) != len(cases):
            raise Infra("duplicate case ids")
        byid = {str(c["id"]): c for c in cases}
        k = max(1, min(NCPU, len(cases) // 4 if shard is None else shard))
        shards = [cases[i::k] for i in range(k)]

        def one(sh):
            p = self.dump_cases(sh)
            try:
                _, out, st = self.tlc(module, cfg, dict(env or {}, CASES=p), heap=heap, timeout=timeout)
            except Unjudgeable as e:
                return self.unjudgeable(sh, module, cfg, env, heap, e), [], (0, 0)
            done = self.prints(out, "DONE")
            if not done or int(done[-1][0]) != len(sh):
                raise Infra(f"{module}: judged {done} of {len(sh)} cases\n{out[-4000:]}")
            return self.prints(out, tag), self.prints(out, "COV"), st

        fails, cov = [], {}
        with ThreadPoolExecutor(k) as ex:
            for f, c, st in ex.map(one, shards):
                fails += f
                self.states += st[1]
                for key, n in c:
                    cov[key] = cov.get(key, 0) + int(n)
                self.transitions += st[0]
        self.validated += len(cases)
        for f in fails:
            if f[1] == "witness":
                raise Infra(f"{module}: bad witness in case {f}")
            self.fail(f[0], f[1], "|".join(f[2:]), {"module": module, "case": byid.get(f[0])})
        for key, n in cov.items():
            self.coverage[key] = self.coverage.get(key, 0) + n
        self.say(f"{module}: {len(cases)} cases judged, {len(fails)} clause failures")
        return fails

    def unjudgeable(self, cases, module, cfg, env, heap, why):
        """Find one of the cases that TLC cannot evaluate: what the code did there is nothing the specification knows."""
        while len(cases) > 1:
            half = cases[:len(cases) // 2]
            try:
                self.tlc(module, cfg, dict(env or {}, CASES=self.dump_cases(half)), heap=heap, timeout=300)
            except Unjudgeable as e:
                cases, why = half, e
            else:
                cases = cases[len(cases) // 2:]
        m = re.search(r"Error:(.*)", str(why), re.S)
        return [[str(cases[0]["id"]), "what was recorded is nothing the specification can evaluate", " ".join(m.group(1).split())[:300] if m else ""]]

    def judge_traces(self, module, traces, cfg=None, shard=None, heap="3g", env=None, timeout=800):
        """Have spec/<module>.tla accept every trace: a list of {"id", "events": [...], ...}.

        Each trace must be a behaviour of the specification.  The module keeps the
        length of the longest accepted prefix per trace and prints at the end
        TRACE|<id>|<accepted>|<length>.
        """
        if not traces:
            raise Infra("no traces for " + module)
        byid = {str(t["id"]): t for t in traces}
        if len(byid) != len(traces):
            raise Infra("duplicate trace ids")
        k = max(1, min(NCPU, len(traces) // 8 if shard is None else shard))
        shards = [traces[i::k] for i in range(k)]

        def one(sh):
            p = self.dump_cases(sh)
            try:
                _, out, st = self.tlc(module, cfg, dict(env or {}, CASES=p), heap=heap, timeout=timeout)
            except Unjudgeable as e:
                f = self.unjudgeable(sh, module, cfg, env, heap, e)[0]
                self.fail(f[0], f[1], f[2], {"module": module, "case": byid.get(f[0])})
                return [], (0, 0)
            got = self.prints(out, "TRACE")
            if len(got) != len(sh):
                raise Infra(f"{module}: verdicts for {len(got)} of {len(sh)} traces\n{out[-4000:]}")
            return got, st

        bad = 0
        with ThreadPoolExecutor(k) as ex:
            for got, st in ex.map(one, shards):
                self.transitions += st[0]
                self.states += st[1]
                for tid, acc, ln in got:
                    if int(acc) < int(ln):
                        bad += 1
                        t = byid[tid]
                        ev = t["events"][int(acc)] if int(acc) < len(t["events"]) else None
                        prev = t["events"][max(0, int(acc) - 3):int(acc)]
                        self.fail(tid, f"event {acc} is not a step of {module}: {json.dumps(ev)[:400]}",
                                  f"after {json.dumps(prev)[:600]}", {"module": module, "case": t})
        self.validated += len(traces)
        self.say(f"{module}: {len(traces)} traces validated, {bad} rejected")

    # ---- verdict ---------------------------------------------------------------
    def finish(self, level="model_checking"):
        known = load_known(self.prop)
        seen, new = {}, []
        for key, clause, detail, payload in self.fails:
            k = next((x for x in known if x.matches(key, clause, detail)), None)
            if k is None:
                new.append((key, clause, detail, payload))
            else:
                seen.setdefault(k.text, []).append((key, clause, detail))
        for text, hits in seen.items():
            print(f"KNOWN-FINDING: property={self.prop} {text} ({len(hits)} occurrence(s), e.g. {hits[0][0]}: {hits[0][1]})")
        if self.validated == 0:
            raise Infra("no trace of the implementation was validated")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": max(1, self.states), "transitions": max(1, self.transitions),
                "traces_validated_against_impl": self.validated,
                "samples": (self.samples or ["none"])[:8],
                **self.coverage,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            d = os.path.join(VERIF, "out", self.prop)
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, f"violation-{self.tier}-{self.seed}.json")
            with open(p, "w") as f:
                json.dump([{"key": k, "clause": c, "detail": dt, "payload": pl} for k, c, dt, pl in new[:20]], f, indent=1, default=str)
            for k, c, dt, _ in new[:10]:
                self.say(f"FAILED {k}: {c} {dt}"[:900])
            print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            return 1
        self.say(f"held: {self.validated} traces/cases, {self.states} states")
        return 0


class Known:
    def __init__(self, rec):
        self.key, self.clause, self.detail, self.text = (rec.get(k, "") for k in ("key", "clause", "detail", "text"))

    def matches(self, key, clause, detail):
        return bool(re.fullmatch(self.key or ".*", key)) and bool(re.fullmatch(self.clause, clause)) and \
            bool(re.fullmatch(self.detail or ".*", detail, re.S))


def load_known(prop):
    """known-findings.txt: 'known: property=<id> key=<re> clause=<re> [detail=<re>] :: <what fails>'; 'fixed:' lines suppress nothing."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+)((?: (?:key|clause|detail)=\S+)*) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                rec = dict(x.split("=", 1) for x in m.group(2).split())
                rec = {k: v.replace("\\s", " ") for k, v in rec.items()}
                rec["text"] = m.group(3)
                res.append(Known(rec))
    return res


def num(x):
    """A Python number as the decimal string spec/Num.tla computes with."""
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        return "1e999" if x == float("inf") else "-1e999" if x != x or x < 0 else "0"
    return repr(x)


def nums(xs):
    return [num(x) for x in xs]
