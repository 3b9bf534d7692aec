"""C23: the configuration file."""
import concurrent.futures
import hashlib
import json
import re
import os
import random
import shutil
import socket
import subprocess
import threading
import time
import urllib.request

import lib
from node import Node, bdec, benc

SECTIONS = ["dht", "fetchTorrent", "pprof", "logger"]
DEFAULTS = {"dht": dict(Port=21000, WorkPoolSize=2000, BootstrapNodes=["87.98.162.88:6881"]),
            "fetchTorrent": dict(InfoHashQueueSize=300000, WorkPoolSize=500), "pprof": dict(NeedRun=True), "logger": dict(Level="Info")}


def canon(v):
    """A section as text; the names of settings are case-insensitive, an absent list is an empty one."""
    if not isinstance(v, dict):
        return "?" + json.dumps(v)
    return json.dumps({k.lower(): ([] if x is None and k.lower() == "bootstrapnodes" else x) for k, x in v.items()}, sort_keys=True)


def value(rng, s, wild):
    n = lambda hi: rng.choice([0, 1, 2, 255, 256, hi, rng.randrange(hi + 1)]) if wild else rng.randrange(1, min(hi, 5000))
    if s == "dht":
        hosts = ["87.98.162.88:6881", "127.0.0.1:1", "dht.example.org:6881", "[::1]:25401", "router.x:65535"]
        if wild:
            hosts += ["", "x", "ü.example:1", "a\"b\\c", " 1.2.3.4:5 "]
        return dict(Port=n(65535), WorkPoolSize=n(1000000),
                    BootstrapNodes=[rng.choice(hosts) for _ in range(rng.choice([0, 1, 2, 3, 40] if wild else [1, 2, 3]))])
    if s == "fetchTorrent":
        return dict(InfoHashQueueSize=n(2 ** 31 - 1), WorkPoolSize=n(2 ** 31 - 1))
    if s == "pprof":
        return dict(NeedRun=rng.random() < .5)
    return dict(Level=rng.choice(["Info", "debug", "ERROR", "Panic", "trace"] + (["", "x"] if wild else [])))


def text(rng, vals):
    """A file that says vals."""
    d = {}
    for s in rng.sample(list(vals), len(vals)):
        k = rng.choice([s, s, s.lower()])
        v = vals[s]
        if rng.random() < .3:
            v = {(a.lower() if rng.random() < .5 else a): b for a, b in v.items()}
        d[k] = v
    if rng.random() < .2:
        d["other"] = rng.choice([1, {"x": [None]}, "y"])
    t = json.dumps(d, indent=rng.choice([None, 1, 2, 4]), ensure_ascii=rng.random() < .5)
    return (rng.choice(["", "", "\n", "  \n"]) + t + rng.choice(["", "\n", "\r\n \n"])).encode()


def unparsable(rng):
    good = text(rng, {s: value(rng, s, False) for s in SECTIONS}).strip()
    return rng.choice([b"", b"{", b"}", b"{,}", good[:-1], good[:rng.randrange(1, len(good))], good + b"x", good + b"}", b"\x00", b"// c\n" + good,
                       b"dht:\n  Port: 5\n", b"[dht]\nPort=5\n", good.replace(b":", b"=", 1), good.replace(b'"', b"'"),
                       b'{"dht":{"Port":01,"WorkPoolSize":2,"BootstrapNodes":[]}}', b"\xef\xbb\xbf{", good[1:], b" \n "])


def says(b):
    """What a file says: (kind, sections)."""
    try:
        d = json.loads(b.decode("utf-8"))
    except ValueError:
        return "invalid", {s: "" for s in SECTIONS}
    if not isinstance(d, dict):
        return "other", {s: "" for s in SECTIONS}
    low = {k.lower(): v for k, v in d.items()}
    return "some", {s: canon(low[s.lower()]) if s.lower() in low else "missing" for s in SECTIONS}


def surroundings(rng, d):
    """What is no configuration file, and an environment that is no configuration; the environment."""
    if rng.random() < .4:
        for n in rng.sample(["config.json", "config.yaml", "conf/config.json.bak", "conf/configs.json", "conf/defaults.json", "conf/.config.json", "etc/config.json", "dht.json"], 4):
            if not n.startswith("conf/") or os.path.isdir(os.path.join(d, "conf")):
                os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
                with open(os.path.join(d, n), "wb") as f:
                    f.write(text(rng, {s: value(rng, s, False) for s in SECTIONS}) if rng.random() < .7 else unparsable(rng))
    names = [a + b for a in ("DHT", "FETCHTORRENT", "PPROF", "LOGGER") for b in ("", "_PORT", ".PORT", "_WORKPOOLSIZE", ".LEVEL", "_LEVEL", "_NEEDRUN")]
    names += ["PORT", "CONFIG", "LEVEL", "P2PCRAWLER_DHT", "dht", "logger"]
    return dict(os.environ, **{n: rng.choice(["", "1", "0", "syslog", "{}", "true", "false", "Error", "x"]) for n in (rng.sample(names, 6) if rng.random() < .4 else [])})


class Dir:
    """A working directory over edits and starts."""

    def __init__(self, ctx, exe, name, seed):
        self.exe, self.rng, self.ctx = exe, random.Random(seed), ctx
        self.dir = ctx.mkdir(name)
        self.conf, self.f = os.path.join(self.dir, "conf"), os.path.join(self.dir, "conf", "config.json")
        self.vals = {(s, x): value(self.rng, s, x == "b") for s in SECTIONS for x in "ab"}
        self.ev, self.files = [], []

    def edit(self, k, v):
        if os.path.exists(self.f):
            os.unlink(self.f)
        if k == "nodir":
            if os.path.isdir(self.conf):
                shutil.rmtree(self.conf)
        else:
            os.makedirs(self.conf, exist_ok=True)
        say = "absent", {s: "" for s in SECTIONS}
        if k in ("invalid", "some"):
            b = unparsable(self.rng) if k == "invalid" else text(self.rng, {s: self.vals[s, v[s]] for s in SECTIONS if v[s] != "missing"})
            with open(self.f, "wb") as f:
                f.write(b)
            say = says(b)
            if say[0] != k:
                raise lib.CheckError("not %s: %r" % (k, b))
        self.ev.append(dict(e="file", kind=say[0], v=say[1]))
        self.files.append(self.read())

    def read(self):
        try:
            with open(self.f, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def start(self):
        before = self.read()
        out = os.path.join(self.dir, "settings")
        try:
            env = surroundings(self.rng, self.dir)
            p = subprocess.run([self.exe, out], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
        except subprocess.TimeoutExpired:
            raise lib.CheckError("the start does not end")
        eff = {s: "" for s in SECTIONS}
        ok = p.returncode == 0 and os.path.exists(out)
        if ok:
            with open(out) as f:
                eff = {s: canon(v) for s, v in json.load(f).items()}
            os.unlink(out)
        self.ev.append(dict(e="start", ok=ok, eff=eff))
        after = self.read()
        say = ("absent", {s: "" for s in SECTIONS}) if after is None else says(after)
        self.ev.append(dict(e="after", same=after == before, kind=say[0], v=say[1]))
        self.files.append(after)
        self.out = p.stdout.decode("utf-8", "replace")[-1500:]

    def trace(self, i):
        return dict(cfg=dict(scenario=i, sections=SECTIONS, defaults={s: canon(v) for s, v in DEFAULTS.items()}), ev=self.ev)


def spec(ops, design="right"):
    return ("CONSTANTS Sections = {%s}\nMaxOps = %d\nDesign = \"%s\"\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            % (",".join('"%s"' % s for s in SECTIONS[:4 if ops <= 3 or design == "gen" else 2]), ops, "right" if design == "gen" else design))


# ------------------------------------------------------------------ a running crawler

class Peers:
    """A TCP listener that never answers; counts connections."""

    def __init__(self):
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(200)
        self.port, self.c, self.stop = self.s.getsockname()[1], [], False
        threading.Thread(target=self._run, daemon=True).start()

    def _run(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            self.c.append(c)

    def close(self):
        self.stop = True
        self.s.close()
        for c in self.c:
            c.close()


def http(port):
    try:
        with urllib.request.urlopen("http://127.0.0.1:%d/debug/pprof/cmdline" % port, timeout=3) as r:
            return r.status == 200
    except OSError:
        return False


def free(fam, port):
    s = socket.socket(socket.AF_INET, fam)
    try:
        s.bind(("127.0.0.1", port))
        return True
    except OSError:
        return False
    finally:
        s.close()


def live(ctx, rng, i):
    """A start of the crawler with settings it shows on the network; the trace.  Some take them from the file named by --config."""
    rr = random.Random(rng.random())
    boots = []
    for _ in range(rr.choice([1, 2, 5])):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("127.0.0.1", 0))
        s.settimeout(.3)
        boots.append(s)
    for _ in range(1000):
        port = rr.randrange(1100, 65000)
        if free(socket.SOCK_DGRAM, port):
            break
    W, Q, N = rr.choice([1, 2, 5, 9]), rr.choice([1, 2, 7]), rr.choice([2, 3, 4])
    pprof = rr.random() < .5 if i > 1 else i == 1
    d = ctx.mkdir("live-%d" % i)
    os.makedirs(os.path.join(d, "conf"))
    vals = dict(dht=dict(Port=port, WorkPoolSize=N, BootstrapNodes=["127.0.0.1:%d" % b.getsockname()[1] for b in boots]),
                fetchTorrent=dict(InfoHashQueueSize=Q, WorkPoolSize=W), pprof=dict(NeedRun=pprof), logger=dict(Level=rr.choice(["Debug", "Info", "Error"])))
    level = vals["logger"]["Level"]
    name = "conf/config.json" if i % 2 == 0 else rr.choice(["other.json", "conf/other.json", os.path.join(d, "third.json")])
    with open(os.path.join(d, name), "wb") as f:
        f.write(text(rr, vals))
    if name != "conf/config.json":
        with open(os.path.join(d, "conf", "config.json"), "wb") as f:
            f.write(text(rr, dict(dht=dict(Port=0, WorkPoolSize=N + 1, BootstrapNodes=["127.0.0.1:9"]), fetchTorrent=dict(InfoHashQueueSize=Q + 1, WorkPoolSize=W + 1),
                                  pprof=dict(NeedRun=not pprof), logger=dict(Level="Error" if level == "Info" else "Info"))))
    both = lambda: [open(os.path.join(d, x), "rb").read() for x in ("conf/config.json", name)]
    before = both()
    took = not free(socket.SOCK_STREAM, 10080)
    log = os.path.join(d, "out.log")
    with open(log, "wb") as f:
        p = subprocess.Popen([ctx.build_crawler()] + (["--config", name] if name != "conf/config.json" else []), cwd=d, env=surroundings(rr, d), stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    ev = []
    peers = Peers()
    try:
        asked, end = {}, time.time() + 20
        while time.time() < end and len(asked) < len(boots):
            for k, b in enumerate(boots):
                if k not in asked:
                    try:
                        asked[k] = b.recvfrom(4096)
                    except socket.timeout:
                        pass
            if p.poll() is not None:
                out = open(log, errors="replace").read()
                ctx.crash_check(p.returncode, out)
                raise lib.CheckError("the crawler did not start: " + out[-1500:])
        runs = lambda what, want, got: ev.append(dict(e="runs", what=what, want=str(want), got=str(got)))
        runs("bootstrap nodes that were asked", sorted(range(len(boots))), sorted(asked))
        runs("UDP port", [port], sorted({a[1][1] for a in asked.values()}) or [port])
        u = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        u.bind(("127.0.0.1", 0))
        u.settimeout(1)
        to = ("127.0.0.1", port)
        if not asked:
            return d, ev, vals
        got = set()

        def ping(wait):
            u.sendto(benc({"t": "pp", "y": "q", "q": "ping", "a": {"id": b"x" * 20}}), to)
            end = time.time() + wait
            while time.time() < end:
                try:
                    r = bdec(u.recv(4096))[0]
                except socket.timeout:
                    continue
                if r.get(b"t") == b"pp":
                    return True
                got.add(r.get(b"t"))
            return False

        def announce(t):
            u.sendto(benc({"t": t, "y": "q", "q": "announce_peer", "a": {"id": b"x" * 20, "info_hash": hashlib.sha1(b"%d%s" % (i, t)).digest(),
                                                                           "port": peers.port, "token": b"x"}}), to)
        # W fetches run at once: announce that many, then more
        for k in range(W):
            announce(b"w%d" % k)
        t0 = time.time()
        while time.time() < t0 + 10 and len(peers.c) < W:
            time.sleep(.01)
        full = time.time()
        if len(peers.c) == W and not ping(5):
            raise lib.CheckError("no answer")
        for k in range(W + Q):
            announce(b"q%d" % k)
        time.sleep(.25)
        if time.time() < full + .8:     # before the first of them ends (after a second)
            runs("fetches at once", W, len(peers.c))
        if pprof or not took:
            if not (pprof and took):
                end = time.time() + (5 if pprof else .3)
                while time.time() < end and http(10080) != pprof:
                    time.sleep(.05)
                runs("pprof listens", pprof, http(10080))
        with open(log, "rb") as f:
            sevs = set(re.findall(rb"^\d{4}-\d\d-\d\d [\d:.]+ +([A-Z][a-z]+): ", f.read(), re.M))
        runs("log messages of level Info, at level " + level, level != "Error", b"Info" in sevs)
        if level != "Debug":
            runs("log messages of level Debug, at level " + level, False, b"Debug" in sevs)
        if level == "Error":
            runs("log messages of level Warn, at level " + level, False, b"Warn" in sevs)
        runs("configuration files unchanged", True, both() == before)
    finally:
        peers.close()
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
        for b in boots:
            b.close()
    return d, ev, vals


def flag(ctx, rng):
    """The file named by --config."""
    d = ctx.mkdir("flag")
    os.makedirs(os.path.join(d, "conf"))
    boots = [socket.socket(socket.AF_INET, socket.SOCK_DGRAM) for _ in range(2)]
    for b in boots:
        b.bind(("127.0.0.1", 0))
        b.settimeout(.5)

    def write(n, b):
        with open(os.path.join(d, n), "w") as f:
            json.dump(dict(dht=dict(Port=0, WorkPoolSize=1, BootstrapNodes=["127.0.0.1:%d" % b.getsockname()[1]]),
                           fetchTorrent=dict(InfoHashQueueSize=5, WorkPoolSize=1), pprof=dict(NeedRun=False), logger=dict(Level="Info")), f)
    write("conf/config.json", boots[0])
    write("other.json", boots[1])
    with open(os.path.join(d, "out.log"), "wb") as f:
        p = subprocess.Popen([ctx.build_crawler(), "--config", "other.json"], cwd=d, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        got = []
        end = time.time() + 15
        while time.time() < end and not got and p.poll() is None:
            for k, b in enumerate(boots):
                try:
                    b.recvfrom(4096)
                    got.append(k)
                except socket.timeout:
                    pass
    finally:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.wait()
    for b in boots:
        b.close()
    if got == [0]:
        ctx.violation("started with --config other.json the crawler runs with the settings of ./conf/config.json",
                      dict(kind="flag", asked=got, output=open(os.path.join(d, "out.log"), errors="replace").read()[-2000:]))
    elif got != [1]:
        ctx.violation("started with --config other.json the crawler runs with the settings of neither file",
                      dict(kind="flag", asked=got, output=open(os.path.join(d, "out.log"), errors="replace").read()[-2000:]))


def C23(ctx):
    rng = random.Random(ctx.seed)
    ctx.model_check("Config", spec(ctx.pick(4, 5)) + "INVARIANTS Effective Persisted Untouched\n", must_cover=("Edit", "Start"))
    for design, inv in (("replace", "Effective"), ("zero", "Effective"), ("append", "Untouched"), ("lazy", "Persisted")):
        ctx.refute("Config", spec(4, design) + "INVARIANTS Effective Persisted Untouched\n", inv)
    gen = spec(2, "gen") + "INVARIANT PrintHist\n"
    hs = ctx.generate("Config", gen)
    hs += ctx.generate("Config", spec(ctx.pick(7, 9), "gen") + "INVARIANT PrintHist\n", num=ctx.pick(150, 3000), depth=12)[:ctx.pick(120, 2500)]
    exe = ctx.go_build("cmd/cfgdrv")

    def one(i):
        d = Dir(ctx, exe, "h%d" % i, "%d/%d" % (ctx.seed, i))
        for o in hs[i]:
            if o["o"] == "file":
                d.edit(o["k"], o["v"])
            else:
                d.start()
        d.start()
        shutil.rmtree(d.dir, ignore_errors=True)
        return d
    with concurrent.futures.ThreadPoolExecutor(max_workers=12) as ex:
        dirs = list(ex.map(one, range(len(hs))))
    traces = [d.trace(i) for i, d in enumerate(dirs)]
    ctx.sample(dict(history=hs[-1], trace=traces[-1]["ev"][:6]))
    lives = []
    for i in range(ctx.pick(10, 40)):
        lives.append(live(ctx, rng, i))
        traces.append(dict(cfg=dict(scenario=len(hs) + i, sections=SECTIONS, defaults={s: canon(v) for s, v in DEFAULTS.items()}), ev=lives[-1][1]))
    ctx.sample(dict(settings=lives[0][2], shown=lives[0][1]))
    rej = ctx.validate("Config_Trace", traces, focus="C23")
    for i, n in rej:
        e = traces[i]["ev"][n] if n < len(traces[i]["ev"]) else None
        if i < len(hs):
            ctx.violation("configuration: %s is not what the file allows" % (e or {}).get("e"),
                          dict(kind="history", history=hs[i], observed=traces[i]["ev"], rejected=e,
                               files=[f.decode("utf-8", "replace") if f is not None else None for f in dirs[i].files], output=dirs[i].out))
        else:
            ctx.violation("a running crawler shows other settings than its file has: %s: %s, not %s" % (e["what"], e["got"], e["want"]),
                          dict(kind="live", settings=lives[i - len(hs)][2], observed=traces[i]["ev"], rejected=e))
    flag(ctx, rng)
    ctx.assumptions += ["a section that gives only some of its settings is not specified", "the names of sections and settings are case-insensitive",
                        "the first start without a file is driven through package config alone: its default bootstrap node cannot be reached here"]
