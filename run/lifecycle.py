"""C29: starts and ends of the crawler."""
import concurrent.futures
import hashlib
import json
import os
import random
import re
import signal
import socket
import subprocess
import threading
import time

import lib
from node import bdec, benc


def inodes(pid):
    r = set()
    try:
        for x in os.listdir("/proc/%d/fd" % pid):
            try:
                m = re.fullmatch(r"socket:\[(\d+)\]", os.readlink("/proc/%d/fd/%s" % (pid, x)))
                if m:
                    r.add(m[1])
            except OSError:
                pass
    except OSError:
        pass
    return r


def ports(pid):
    """UDP ports the process has"""
    ino, r = inodes(pid), set()
    for f in ("/proc/net/udp", "/proc/net/udp6"):
        with open(f) as fd:
            for l in fd.readlines()[1:]:
                w = l.split()
                if w[9] in ino:
                    r.add(int(w[1].split(":")[1], 16))
    return r


BAD = ["127.0.0.1:0", "127.0.0.1", "127.0.0.1:70000"]
USED, LOCK = set(), threading.Lock()


class Busy(Exception):
    pass


class Place:
    """Ports with a directory each, and the processes started there."""

    def __init__(self, ctx, name, n, rng):
        self.ctx, self.rng, self.ev = ctx, rng, []
        self.dir, self.q, self.left = {}, {}, {}
        self.held, self.p, self.slow = {}, {}, False
        for k in range(n):
            while True:
                s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
                port = random.randrange(2000, 32000)
                with LOCK:
                    if port in USED:
                        continue
                    USED.add(port)
                try:
                    s.bind(("::", port))
                    break
                except OSError:
                    continue
                finally:
                    s.close()
            d = self.dir[k] = ctx.mkdir("%s-%d" % (name, k))
            self.q[k] = port
            os.makedirs(d + "/conf")
            z = rng.random()
            if z < .15:
                open(d + "/logs", "w").close()          # no directory
            if .1 < z < .25:
                open(d + "/torrent", "w").close()
            elif z < .8:
                os.makedirs(d + "/torrent")
                m = rng.randbytes(rng.choice([10, 70000]))
                with open("%s/torrent/%s.torrent" % (d, hashlib.sha1(m).hexdigest()), "wb") as f:
                    f.write(m)
            if .5 < z < .9:
                os.makedirs(d + "/logs")
                with open(d + "/logs/infohash.log", "wb") as f:
                    f.write(b'{"level":"info","ts":1.5,"msg":"get_peer","addr":"127.0.0.1:1","infoHash":"%s"}\n' % (b"0" * 40) * 3)

    def config(self, q, boots, bad=()):
        with open(self.dir[q] + "/conf/config.json", "w") as f:
            json.dump(dict(dht=dict(Port=self.q[q], WorkPoolSize=2, BootstrapNodes=self.order(["127.0.0.1:%d" % b.getsockname()[1] for b in boots] + list(bad))),
                           fetchTorrent=dict(InfoHashQueueSize=10, WorkPoolSize=2), pprof=dict(NeedRun=self.rng.random() < .3), logger=dict(Level="Info")), f)

    def order(self, l):
        self.rng.shuffle(l)
        return l

    def files(self, q):
        r = {}
        for w, _, fs in os.walk(self.dir[q]):
            for x in fs:
                p = os.path.join(w, x)
                if w != self.dir[q]:        # those of the crawler are in conf, logs and torrent
                    with open(p, "rb") as f:
                        r[p] = f.read()
        return r

    def same(self, q):
        now = self.files(q)
        ok = all(now.get(p) == b or (p.endswith("infohash.log") and now.get(p, b"").startswith(b)) for p, b in self.left.get(q, {}).items())
        self.ev.append(dict(e="files", same=ok))
        self.left[q] = now

    def start(self, ps, q):
        boots = []
        for _ in range(self.rng.choice([0, 1, 1, 3])):
            b = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            b.bind(("127.0.0.1", 0))
            b.setblocking(False)
            boots.append(b)
        # a node that no query can be sent to: the start fails
        bad = [self.rng.choice(BAD)] if self.rng.random() < .12 else []
        self.config(q, boots, bad)
        self.left.pop(q, None)
        self.left[q] = self.files(q)
        new = {}
        for p in ps:
            out = os.path.join(self.dir[q], "out-%s-%d" % (p, time.time_ns()))
            with open(out, "wb") as f:
                new[p] = (subprocess.Popen([self.ctx.build_crawler()], cwd=self.dir[q], stdout=f, stderr=subprocess.STDOUT, start_new_session=True), out, boots, q)
            self.ev.append(dict(e="start", p=p, q=self.q[q], boots=len(boots) + len(bad), bad=bool(bad)))
        self.p.update(new)
        asked, states = set(), {}
        end = time.time() + 12
        while time.time() < end:
            for b in boots:
                while True:
                    try:
                        x, a = b.recvfrom(4096)
                    except OSError:
                        break
                    if b"1:q9:find_node" in x and a[1] == self.q[q]:
                        asked.add(b.getsockname()[1])
            states = {p: (n[0].poll(), ports(n[0].pid)) for p, n in new.items()}
            if all(rc is not None or (has and len(asked) == len(boots) and not bad) for rc, has in states.values()):
                break
            time.sleep(.01)
        else:
            self.slow = True
        # one that has just got its port may still be about to end, and one that has lost is given time to
        time.sleep(.03)
        for p, n in sorted(new.items(), key=lambda x: x[1][0].poll() is not None):
            rc, has = n[0].poll(), ports(n[0].pid)
            self.ev.append(dict(e="state", p=p, alive=rc is None, rc=rc or 0, has=sorted(has) if rc is None else [], asked=len(asked)))
            if rc is not None:
                del self.p[p]
        for b in boots:
            b.close()
        self.same(q)

    def ask(self, q, tries=3):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("127.0.0.1", 0))
        ok = False
        owner = [n for n in self.p.values() if n[3] == q and n[0].poll() is None]
        for k in range(tries if owner else 1):
            s.settimeout(2 if owner else .1)
            t = b"q%d" % self.rng.randrange(10 ** 6)
            try:
                s.sendto(benc(dict(t=t, y="q", q="get_peers", a=dict(id="I" * 20, info_hash="h" * 20))), ("127.0.0.1", self.q[q]))
                x, _ = s.recvfrom(4096)
                d = bdec(x)[0]
                ok = d.get(b"t") == t and d.get(b"y") == b"r"
                break
            except (OSError, ValueError):
                pass
        s.close()
        self.ev.append(dict(e="ask", q=self.q[q], ok=ok))

    def end(self, p, how):
        if p not in self.p:
            return
        n = self.p.pop(p)
        n[0].send_signal(dict(kill=signal.SIGKILL, term=signal.SIGTERM, int=signal.SIGINT)[how])
        try:
            rc = n[0].wait(20)
        except subprocess.TimeoutExpired:
            rc = 99
            n[0].kill()
            n[0].wait()
        self.ev.append(dict(e="end", p=p, how=how, rc=rc))
        self.same(n[3])

    def run(self, ops):
        for op, p, q in ops:
            if self.slow:           # neither up nor gone in 12 s: that is for the specification to judge
                break
            if op == "start" and p not in self.p:
                self.start([p], q)
            elif op == "both" and not self.p:
                self.start(["p1", "p2"], q)
            elif op in ("kill", "term", "int"):
                self.end(p, op)
            elif op == "take" and q not in self.held and not any(n[3] == q for n in self.p.values()):
                s = socket.socket(socket.AF_INET6 if self.rng.random() < .5 else socket.AF_INET, socket.SOCK_DGRAM)
                try:
                    s.bind(("::" if s.family == socket.AF_INET6 else "0.0.0.0", self.q[q]))
                except OSError:
                    s.close()
                    raise Busy()
                self.held[q] = s
                self.ev.append(dict(e="take", q=self.q[q]))
            elif op == "free" and q in self.held:
                self.held.pop(q).close()
                self.ev.append(dict(e="free", q=self.q[q]))
            for k in self.q:
                if k not in self.held:
                    self.ask(k)

    def close(self):
        for n in self.p.values():
            try:
                os.killpg(n[0].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            n[0].wait()
        for s in self.held.values():
            s.close()


def C29(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} Ports = {0,1} MaxOps = %d EnvQuiet = %s Broken = \"%s\"\n%s\nCHECK_DEADLOCK FALSE\n"
    inv = "INVARIANTS Serves Alone NotOthers Freed\nVIEW View"
    ctx.model_check("Lifecycle", cfg % ("p1,p2,p3".replace("p", '"p').replace(",", '",') + '"', ctx.pick(6, 8), "FALSE", "none", inv), must_cover=("Bind", "Refuse", "Start", "Both", "End", "Take", "Free"))
    two = '"p1","p2"'
    for b, i in (("share", "Alone"), ("deaf", "Serves"), ("elsewhere", "Serves"), ("lingers", "Freed")):
        ctx.refute("Lifecycle", cfg % (two, 4, "FALSE", b, inv.replace("VIEW View", "")), i)
    rng = random.Random(ctx.seed * 127 + 29)
    beh = ctx.generate("Lifecycle", cfg % (two, ctx.pick(4, 5), "TRUE", "none", "VIEW GenView\nCONSTRAINT PrintBeh"), workers=4)
    full = {tuple(map(tuple, b)) for b in beh}
    for b in [tuple(map(tuple, b)) for b in beh]:
        full.discard(b[:-1])
    beh = sorted(full)
    rng.shuffle(beh)
    # those that say most
    beh = [b for b in beh if sum(o[0] in ("start", "both") for o in b) >= 2][:ctx.pick(70, 900)]
    beh += [(("both", 0, 0), ("kill", "p1", 0), ("kill", "p2", 0), ("start", "p1", 0)) for _ in range(ctx.pick(6, 60))]
    ctx.build_crawler()

    slow = []

    def one(k):
        for attempt in range(4 if len(slow) < 3 else 0):
            w = Place(ctx, "life%d-%d" % (k, time.time_ns()), 2, random.Random("%d/%d" % (ctx.seed, k)))
            try:
                w.run(beh[k])
                if w.slow:
                    slow.append(k)
                return dict(cfg=dict(scenario=k), ev=w.ev)
            except Busy:        # something else has the port
                continue
            finally:
                w.close()
        if len(slow) > 2:
            return None
        raise lib.CheckError("no free ports")
    for attempt in range(2):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            traces = list(ex.map(one, range(len(beh))))
        slow.clear()
        beh = [b for b, t in zip(beh, traces) if t]
        traces = [t for t in traces if t]
        rej = ctx.validate("Lifecycle_Trace", traces, focus="C29")
        if not rej:
            break
        for i, m in rej:
            ctx.log("again: " + json.dumps(traces[i]["ev"][:m + 1])[-700:])
        # ports may have been taken by others in between: what counts is what happens again
        ran, beh = beh,  [beh[i] for i, _ in rej[:8]]
    for i, m in rej[:1]:
        ctx.violation("starts and ends: %s" % json.dumps(traces[i]["ev"][m]), dict(kind="trace", ops=ran[i], before=traces[i]["ev"][:m + 1]))
    ctx.sample(traces[0]["ev"][:8])
