"""Shared machinery of the checks: building drivers, running TLC, validating traces, verdicts, evidence.

Exit codes of a check: 0 held on everything explored; 1 with a VIOLATION line; 2 error of the check itself.
"""
import concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

sys.setrecursionlimit(20000)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(HOME=os.environ.get("HOME", "/root"), GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.parts = [], [], {}
        self.assumptions = []
        self.findings = load_findings(prop)
        self.known_hit = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def mkdir(self, *a):
        d = self.path(*a)
        os.makedirs(d, exist_ok=True)
        return d

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- building

    def overlay(self):
        """Copies of the code under test with a scheduling point before every statement (harness/cmd/inject)."""
        d = self.path("overlay")
        if not os.path.exists(d):
            os.makedirs(d)
            inj = self.go_build("cmd/inject")
            dirs = [os.path.join(REPO, x) for x in ("misc", "dht", "dht/krpc", "dht/peerwire", "config")]
            self.run([inj, d, *[x for x in dirs if os.path.isdir(x)]])
        return os.path.join(d, "overlay.json")

    def go_build(self, pkg, name=None, race=False, test=False, tags=None, perturb=False):
        """Builds a driver of /verif/harness against /repo's working tree."""
        name = name or pkg.replace("/", "_") + ("_race" if race else "") + ("_y" if perturb else "")
        out = self.path(name)
        if os.path.exists(out):
            return out
        if perturb:
            try:
                ov = self.overlay()
                self._go((["go", "test", "-c", "-vet=off"] if test else ["go", "build"]) + (["-race"] if race else []) +
                         ["-overlay", ov, "-o", out, "./" + pkg], HARNESS)
                return out
            except CheckError as e:     # the plain build decides whether the code compiles
                self.log("no perturbed build: " + str(e)[:300])
        cmd = ["go", "test", "-c", "-vet=off"] if test else ["go", "build"]
        if race:
            cmd.append("-race")
        if tags:
            cmd += ["-tags", tags]
        cmd += ["-o", out, "./" + pkg]
        self._go(cmd, HARNESS)
        return out

    def build_crawler(self, race=False, perturb=False):
        out = self.path("crawler" + ("_race" if race else "") + ("_y" if perturb else ""))
        if os.path.exists(out):
            return out
        flags = ["-race"] if race else []
        if perturb:
            try:
                ov = self.overlay()
                self._go(["go", "build", *flags, "-overlay", ov, "-o", out, "github.com/GalaIO/P2Pcrawler"], HARNESS)
                return out
            except CheckError as e:
                self.log("no perturbed build: " + str(e)[:300])
        self._go(["go", "build", *flags, "-o", out, "."], REPO)
        return out

    def build_debug(self):
        """The crawler, with a socket that tells what it holds (harness/debug)."""
        out = self.path("crawler_debug")
        if not os.path.exists(out):
            ov = self.path("debug.json")
            with open(ov, "w") as f:
                json.dump(dict(Replace={os.path.join(REPO, "zz_verif_debug.go"): os.path.join(HARNESS, "debug", "debug.go.in")}), f)
            self._go(["go", "build", "-overlay", ov, "-o", out, "."], REPO)
        return out

    def _go(self, cmd, cwd):
        t = time.time()
        env = dict(os.environ)
        env.update(GOENV)
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600)
        if r.returncode != 0:
            raise CheckError("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
        self.log("built %s in %.1fs" % (cmd[-1], time.time() - t))

    # ---------------------------------------------------------------- running drivers

    def run(self, cmd, cwd=None, stdin=None, timeout=300, env=None, ok=(0,)):
        """Runs a driver. Returns (rc, stdout, stderr); a timeout is an error of the check."""
        e = dict(os.environ)
        if env:
            e.update(env)
        p = subprocess.Popen(cmd, cwd=cwd or self.mkdir("cwd"), env=e, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError("driver timed out after %ds: %s" % (timeout, cmd[0]))
        out, err = out.decode("utf-8", "replace"), err.decode("utf-8", "replace")
        if ok is not None and p.returncode not in ok:
            raise CheckError("driver failed rc=%s: %s\n%s" % (p.returncode, " ".join(map(str, cmd))[:300], err[-3000:]))
        return p.returncode, out, err

    def drive(self, binary, scenarios, args=(), timeout=300, cwd=None, env=None, what="scenario", race_key=None):
        """Runs a driver that reads scenarios (JSON, stdin) and writes traces to the file named by its last argument.
        A crash of, or a data race in, the code under test is behaviour no property allows: a violation."""
        out = self.path("out-%d.json" % time.time_ns())
        if cwd is None:
            cwd = self.conf_dir()
        rc, so, se = self.run([binary, *map(str, args), out], stdin=json.dumps(scenarios), timeout=timeout, ok=None,
                              cwd=cwd, env=env)
        self.crash_check(rc, se, scenarios, what)
        if rc != 0 or not os.path.exists(out):
            self.exit_check(rc, so, se, scenarios)
            raise CheckError("driver failed rc=%s: %s\n%s" % (rc, binary, se[-3000:]))
        with open(out) as f:
            traces = json.load(f)
        os.unlink(out)
        return traces

    def conf_dir(self, name="cwd"):
        """A scratch working directory whose configuration binds an ephemeral port (package dht binds at init)."""
        d = self.mkdir(name)
        os.makedirs(os.path.join(d, "conf"), exist_ok=True)
        with open(os.path.join(d, "conf", "config.json"), "w") as f:
            json.dump(dict(dht=dict(Port=0, WorkPoolSize=1, BootstrapNodes=[]),
                           fetchTorrent=dict(InfoHashQueueSize=10, WorkPoolSize=1), pprof=dict(NeedRun=False),
                           logger=dict(Level="Info")), f)
        return d

    def crash_check(self, rc, se, scenarios=None, what="run"):
        m = re.search(r"WARNING: DATA RACE.*?\n==================", se, re.S)
        if m and "GalaIO/P2Pcrawler" in m.group(0):
            self.violation("data race in the code under test",
                           dict(kind="data-race", report=m.group(0)[:6000], scenarios=shorten(scenarios)))
        if rc == 97 and "HANG " in se:
            for g in re.split(r"\n\n(?=goroutine )", se):
                if re.match(r"goroutine \d+ (gp=\S+ m=\S+ (mp=\S+ )?)?\[(chan|select|sema|sync)", g) and \
                        "github.com/GalaIO/P2Pcrawler" in g:
                    self.violation("the code under test hangs", dict(kind="hang", stack=g[:3000], report=se[-200000:][:6000]))
        m = re.search(r"^(panic: |fatal error: ).*", se, re.S | re.M)
        if m and rc != 0:
            # the panic must come out of the code under test: one of its frames in the first goroutine's stack
            first = m.group(0).split("\n\ngoroutine ", 2)
            stack = "\n\ngoroutine ".join(first[:2])
            n = re.findall(r"^scenario (\d+)", se, re.M)
            sc = scenarios[int(n[-1])] if n and isinstance(scenarios, list) and int(n[-1]) < len(scenarios) else None
            if "github.com/GalaIO/P2Pcrawler" in stack and "verifharness: " not in m.group(0)[:200]:
                self.violation("the code under test crashed: " + m.group(0).split("\n")[0],
                               dict(kind="crash", stack=stack[:6000], scenario=shorten(sc, 20000)))

    def exit_check(self, rc, so, se, scenarios=None):
        """A driver that ended without a result and without a word: the code under test ended the process."""
        if rc > 0 and rc not in (3, 97, 98) and not re.search(r"^(panic: |fatal error: |--- FAIL|FAIL$)|verifharness: |runtime: ", so + se, re.M):
            n = re.findall(r"^scenario (\d+)", se, re.M)
            sc = scenarios[int(n[-1])] if n and isinstance(scenarios, list) and int(n[-1]) < len(scenarios) else None
            self.violation("the code under test ended the process (exit code %d)" % rc,
                           dict(kind="exit", rc=rc, output=(so + se)[-3000:], scenario=shorten(sc, 20000)))

    # ---------------------------------------------------------------- TLC

    def _tlc(self, module, cfg, env=None, workers=None, args=(), timeout=600, heap="6g"):
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, module + ".cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-XX:TieredStopAtLevel=%d" % (4 if timeout > 60 else 1),
               "-cp", JAR, "tlc2.TLC", "-config", module + ".cfg", "-metadir", os.path.join(d, "meta"),
               "-noGenerateSpecTE", "-workers", str(workers or os.cpu_count() or 4), *args, module + ".tla"]
        t = time.time()
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            raise CheckError("TLC timed out after %ds on %s" % (timeout, module))
        shutil.rmtree(d, ignore_errors=True)
        out = re.sub(r"^(Parsing file|Semantic processing|Linting of|TLC2 Version).*\n", "", out, flags=re.M)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        if not m:
            m2 = re.findall(r"Progress: (\d+) states checked", out) or re.findall(r"(\d+) states checked", out) 
            if m2:
                gen = dist = int(m2[-1])
        return p.returncode, out, gen, dist, time.time() - t

    def model_check(self, module, cfg, timeout=600, must_cover=(), workers=None):
        """Exhaustive check of the design. Failure is an error of the check (the code is not involved)."""
        rc, out, gen, dist, dt = self._tlc(module, cfg, timeout=timeout, workers=workers, args=("-coverage", "1"))
        if rc != 0 or "No error has been found" not in out:
            out = re.sub(r"The coverage statistics.*?End of statistics\.", "", out, flags=re.S)
            raise CheckError("model checking %s failed (rc %d):\n%s" % (module, rc, out[-5000:]))
        # vacuity: every action named in must_cover was taken
        for a in must_cover:
            hits = re.findall(r"<%s line [^>]*>: (\d+):(\d+)" % re.escape(a), out)
            if not hits or all(int(x[1]) == 0 for x in hits):
                raise CheckError("%s: action %s never taken (vacuous model)" % (module, a))
        self.states += dist
        self.transitions += gen
        self.parts.setdefault("model_checking", []).append(dict(module=module, distinct_states=dist, generated=gen,
                                                                seconds=round(dt, 1)))
        self.log("model %s: %d distinct states, %d generated, %.1fs" % (module, dist, gen, dt))
        return out

    def refute(self, module, cfg, inv, timeout=300):
        """A wrong design must be refused: it breaks invariant inv (the only one looked at; others may break as well)."""
        cfg = re.sub(r"^INVARIANTS? .*$", "INVARIANT " + inv, cfg, flags=re.M)
        rc, out, *_ = self._tlc(module, cfg, timeout=timeout)
        if "Invariant %s is violated" % inv not in out:
            raise CheckError("a wrong design of %s is accepted:\n%s" % (module, out[-2000:]))
        self.parts.setdefault("wrong_designs_refuted", []).append("%s: %s" % (module, inv))

    def generate(self, module, cfg, marker="BEH", num=None, depth=None, env=None, timeout=300, workers=1):
        """Behaviours printed by the spec as PrintT(<<marker, ToJson(..)>>)."""
        args = ()
        if num is not None:
            args = ("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed))
        rc, out, gen, dist, dt = self._tlc(module, cfg, env=env, workers=workers, args=args, timeout=timeout)
        if rc != 0:
            raise CheckError("generation from %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        res, seen = [], set()
        for m in re.finditer(r'<<"%s", "((?:[^"\\]|\\.)*)">>' % marker, out):
            s = json.loads('"' + m.group(1) + '"')
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        if not res:
            raise CheckError("generation from %s produced nothing:\n%s" % (module, out[-3000:]))
        self.parts.setdefault("generated", []).append(dict(module=module, behaviours=len(res), seconds=round(dt, 1)))
        self.log("generated %d behaviours from %s in %.1fs" % (len(res), module, dt))
        return res

    def validate(self, module, traces, focus=None, env=None, timeout=600, cfg=None, batch=None, silent=False,
                 heap="4g"):
        """Validates recorded traces with TLC. traces: list of {"cfg":..., "ev":[...]}.
        Returns a list of (index, matched_events) of the rejected traces."""
        if not traces:
            raise CheckError("no traces recorded for " + module)
        if batch is None:
            batch = max(1, -(-len(traces) // 6)) if len(traces) > 100 else len(traces)
        batches = [list(range(i, min(i + batch, len(traces)))) for i in range(0, len(traces), batch)]
        c = cfg or "SPECIFICATION TraceSpec\nCONSTRAINT Progress\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"

        def one(k):
            idx = batches[k]
            fn = self.path("traces-%s-%d-%d.json" % (module, time.time_ns(), k))
            with open(fn, "w") as f:
                f.write(json.dumps([traces[i] for i in idx]))
            e = dict(TRACE_FILE=fn, FOCUS=focus or "ALL")
            e.update(env or {})
            rc, out, gen, dist, dt = self._tlc(module, c, env=e, workers=1, timeout=timeout, heap=heap)
            os.unlink(fn)
            if rc != 0 or '"REPORT-DONE", %d' % len(idx) not in out:
                errs = [x for x in out.split("\n") if re.search(r"rror|xception|ttempted", x)]
                raise CheckError("trace validation with %s failed (rc %d):\n%s\n%s" % (
                    module, rc, "\n".join(errs[:10]), out[-3000:]))
            return [(idx[int(m.group(1)) - 1], int(m.group(2))) for m in
                    re.finditer(r'<<"REJ", (\d+), (\d+)>>', out)], gen, dist

        t = time.time()
        with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
            res = list(ex.map(one, range(len(batches))))
        rejected = sorted(r for x in res for r in x[0])
        gen, dist, nev = sum(x[1] for x in res), sum(x[2] for x in res), sum(len(x["ev"]) for x in traces)
        if not silent:
            self.states += dist
            self.transitions += gen
            self.traces += len(traces)
            self.events += nev
            self.parts.setdefault("trace_validation", []).append(
                dict(module=module, traces=len(traces), events=nev, states=dist, seconds=round(time.time() - t, 1)))
        self.log("validated %d traces (%d events) with %s: %d rejected, %.1fs" % (
            len(traces), nev, module, len(rejected), time.time() - t))
        return rejected

    # ---------------------------------------------------------------- verdicts

    def sample(self, s, n=4):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, what, replay):
        """replay: JSON-able description of the failing run. Known findings are matched by replay['key']."""
        key = replay.get("key") if isinstance(replay, dict) else None
        for f in self.findings:
            if key is not None and f.get("key") == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]), flush=True)
                return
        raise Violation(what, replay)

    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events, samples=self.samples or ["(none)"], **self.parts),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)


def load_findings(prop):
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return [x for x in json.load(f)["findings"] if x["property"] == prop]
    except FileNotFoundError:
        return []


def shorten(x, n=1500):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + "..."


def main(prop, fn):
    ctx = Ctx(prop)
    rc = 2
    try:
        fn(ctx)
        ctx.evidence(0)
        print("OK property=%s tier=%s seed=%d states=%d traces=%d events=%d wall=%.1fs" % (
            prop, ctx.tier, ctx.seed, ctx.states, ctx.traces, ctx.events, time.time() - ctx.t0), flush=True)
        rc = 0
    except Violation as v:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (prop, ctx.tier, ctx.seed))
        with open(p, "w") as f:
            json.dump(dict(property=prop, what=v.what, seed=ctx.seed, tier=ctx.tier, replay=v.replay), f, indent=1,
                      default=str)
        print("violated: " + v.what, flush=True)
        try:
            ctx.evidence(1)
        except Exception:
            traceback.print_exc()
        print("VIOLATION property=%s replay=%s" % (prop, p), flush=True)
        rc = 1
    except CheckError as e:
        print("ERROR of the check: %s" % e, flush=True)
    except Exception:
        traceback.print_exc(limit=-6)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.scratch)
        else:
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
