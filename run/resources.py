"""C28: what the crawler holds."""
import concurrent.futures
import hashlib
import os
import random
import socket
import struct
import threading
import time

import lib
from node import Node, bdec, benc

P = 16384
MODES = ["refused", "close", "reset", "garbage", "silent", "greet", "noext", "zero", "huge", "nometa", "reject", "cut", "wrong", "alive", "flood", "deaf", "good", "good", "good3"]


class Peers:
    """Peers to fetch from: what each does depends on the info-hash."""

    def __init__(self):
        self.mode, self.meta, self.seen, self.stop = {}, {}, {}, False
        self.lock = threading.Lock()
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(1000)
        self.port = self.s.getsockname()[1]
        self.active = 0
        dead = socket.socket()          # nobody listens there
        dead.bind(("127.0.0.1", 0))
        self.dead, self.deadport = dead, dead.getsockname()[1]
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            with self.lock:
                self.active += 1
            threading.Thread(target=self._peer, args=(c,), daemon=True).start()

    def _peer(self, c):
        end = time.time() + 30
        c.settimeout(.5)
        buf = b""

        def need(n):
            nonlocal buf
            while len(buf) < n:
                try:
                    x = c.recv(65536)
                except socket.timeout:
                    if time.time() > end or self.stop:
                        raise EOFError
                    continue
                if not x:
                    raise EOFError
                buf += x
            r, buf = buf[:n], buf[n:]
            return r

        def msg(b):
            c.sendall(struct.pack(">I", len(b)) + b)

        def gone():
            while True:
                need(1)
        try:
            h = need(68)[28:48]
            mode, m = self.mode.get(h, "close"), self.meta.get(h, b"")
            with self.lock:
                self.seen[mode] = self.seen.get(mode, 0) + 1
            if mode == "close":
                return
            if mode == "reset":
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                return
            if mode == "garbage":
                c.sendall(os.urandom(300))
                gone()
            if mode == "silent":
                gone()
            c.sendall(bytes([19]) + b"BitTorrent protocol" + b"\0\0\0\0\0" + (b"\0" if mode == "noext" else b"\x10") + b"\0\0" + h + os.urandom(20))
            if mode in ("greet", "noext"):
                gone()
            if mode == "alive":
                while time.time() < end and not self.stop:
                    c.sendall(b"\0\0\0\0")
                    time.sleep(.02)
                return
            if mode == "flood":
                c.settimeout(5)
                while time.time() < end and not self.stop:
                    msg(bytes([9]) + bytes(random.randrange(1, 32000)))
                return
            size = dict(zero=0, huge=1 << 40, nometa=50).get(mode, len(m))
            d = dict(m=dict(ut_metadata=3), metadata_size=size)
            if mode == "nometa":
                d = dict(m=dict(ut_pex=1), metadata_size=size)
            msg(bytes([20, 0]) + benc(d))
            if mode == "deaf":
                time.sleep(2)
                return
            theirs = None
            while True:
                b = need(struct.unpack(">I", need(4))[0])
                if len(b) < 2 or b[0] != 20:
                    continue
                d, n = bdec(b[2:])
                if b[1] == 0:
                    theirs = d[b"m"][b"ut_metadata"]
                elif b[1] == 3 and d.get(b"msg_type") == 0:
                    i = d[b"piece"]
                    if mode == "reject":
                        msg(bytes([20, theirs]) + benc(dict(msg_type=2, piece=i)))
                        continue
                    data = m[i * P:(i + 1) * P]
                    if mode == "wrong":
                        data = bytes([data[0] ^ 1]) + data[1:]
                    x = bytes([20, theirs]) + benc(dict(msg_type=1, piece=i, total_size=len(m))) + data
                    if mode == "cut":
                        c.sendall(struct.pack(">I", len(x)) + x[:len(x) // 2])
                        return
                    msg(x)
        except (OSError, EOFError, ValueError, KeyError, TypeError):
            pass
        finally:
            c.close()
            with self.lock:
                self.active -= 1

    def close(self):
        self.stop = True
        self.s.close()
        self.dead.close()


class Held:
    """A crawler, and what it holds."""

    def __init__(self, ctx, name, **kw):
        self.ctx = ctx
        self.sock = os.path.join(ctx.mkdir(name), "s")
        self.node = Node(ctx, name, exe=ctx.build_debug(), env=dict(VERIF_DEBUG=self.sock), quiet=True, queue=kw.pop("queue", 100000), level="Panic", **kw)
        self.cfg = dict(workers=kw.get("pool", 1), fetchers=kw.get("fetch_pool", 1), slack=1000 + 16 * kw.get("fetch_pool", 1))
        self.ev, self.n, self.high, self.stop = [], 0, -1, False
        self.u = []
        for i in range(6):
            s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
            s.bind(("127.0.0.%d" % (1 + i % 3), 0))
            s.setblocking(False)
            self.u.append(s)
        self.asked = []             # (socket, transaction id) of the crawler's queries that have not been answered
        self.node.boot.setblocking(False)
        self.asked.append((self.node.boot, bdec(self.node.first)[0][b"t"]))
        self.stored = 0
        self.base, self.late = None, 0
        self.lock = threading.Lock()
        threading.Thread(target=self._watch, daemon=True).start()

    def sockets(self):
        """open files, and sockets among them"""
        d = "/proc/%d/fd" % self.node.p.pid
        f = s = 0
        try:
            for x in os.listdir(d):
                try:
                    s += os.readlink(os.path.join(d, x)).startswith("socket:")
                    f += 1
                except OSError:
                    pass
        except OSError:
            self.node.check_alive("while it was watched", {})
        return f, s

    def _watch(self):
        while not self.stop:
            try:
                _, s = self.sockets()
            except lib.Violation:
                return
            if s > self.high:
                self.high = s
            time.sleep(.002)

    def look(self):
        self.node.check_alive("while it was watched", dict(last=self.ev[-10:]))
        c = socket.socket(socket.AF_UNIX)
        c.settimeout(60)
        c.connect(self.sock)
        b = b""
        while True:
            x = c.recv(1000)
            if not x:
                break
            b += x
        c.close()
        g, m = map(int, b.split())
        f, s = self.sockets()
        return dict(g=g, f=f, s=s, kb=m // 1024)

    def rest(self, e, patience=25):
        """Waits until it holds no more than it did, or no less than before for a while."""
        end, best, fs = time.time() + patience, None, None
        # files first, before a collection closes what nobody has any more
        while time.time() < end:
            x = self.sockets()
            fs = x if fs is None else (min(x[0], fs[0]), min(x[1], fs[1]))
            if self.base and x[0] <= self.base["f"] and x[1] <= self.base["s"] or not self.base and time.time() > end - patience + 1:
                break
            time.sleep(.02)
        end = time.time() + patience
        while time.time() < end:
            x = dict(self.look(), f=fs[0], s=fs[1])
            best = x if best is None else {k: min(x[k], best[k]) for k in x}
            if self.base is None:
                if x == best and time.time() > end - patience + 1:
                    break
            elif best["g"] <= self.base["g"] and best["kb"] <= self.base["kb"] + self.cfg["slack"] // 2:
                break
            time.sleep(.25)
        if self.base and (any(best[k] > self.base[k] + n for k, n in (("g", self.cfg["workers"] + self.cfg["fetchers"] + 2), ("f", 2), ("s", 0)))
                          or best["kb"] > self.base["kb"] + self.cfg["slack"] + 2 * self.stored):
            self.late = 2           # the rest need not be seen
        if e == "base":
            self.base = best
        with self.lock:
            if self.high >= 0 and e != "base":
                self.ev.append(dict(e="during", s=max(0, self.high - 1)))      # one is the watcher's own
            self.high = -1
            self.ev.append(dict(best, e=e, stored=self.stored))

    def drain(self):
        for s in [self.node.boot, *self.u]:
            while True:
                try:
                    b, _ = s.recvfrom(65536)
                except (BlockingIOError, ConnectionRefusedError):
                    break
                if b"1:y1:q" in b:
                    try:
                        self.asked.append((s, bdec(b)[0][b"t"]))
                        self.stored += 1
                    except (ValueError, KeyError):
                        pass

    def barrier(self, patience=30):
        self.n += 1
        t = b"barrier%d" % self.n
        self.node.boot.sendto(benc(dict(t=t, y="q", q="ping", a=dict(id="B" * 20))), self.node.addr)
        end = time.time() + patience
        while time.time() < end:
            try:
                b, _ = self.node.boot.recvfrom(65536)
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(.0002)
                continue
            if t in b:
                return
            if b"1:y1:q" in b:
                self.asked.append((self.node.boot, bdec(b)[0][b"t"]))
                self.stored += 1
        self.node.check_alive("while it was sent messages", dict(last=self.ev[-10:]))
        raise lib.CheckError("no reply any more")     # C01, C02

    def burst(self, kind, n, make, step=40):
        for i in range(n):
            make(i)
            if i % step == step - 1:
                self.barrier()
                self.drain()
        self.barrier()
        self.drain()
        self.ev.append(dict(e="burst", kind=kind, n=n))

    def send(self, d, s=None):
        try:
            (s or random.choice(self.u)).sendto(d if isinstance(d, bytes) else benc(d), self.node.addr)
        except OSError:
            pass

    def close(self):
        self.node.check_alive("at the end", dict(last=self.ev[-10:]))
        self.stop = True
        self.node.kill()
        for s in self.u:
            s.close()
        return dict(cfg=self.cfg, ev=self.ev)


def kinds(H, rng, peers):
    tx = iter(range(10 ** 9))

    def t():
        return b"%x-" % next(tx) + rng.randbytes(rng.choice([0, 2, 20]))

    def ids():
        return rng.randbytes(20)

    def fill(d):
        """with something more, which takes room if it is kept"""
        z = rng.random()
        if z < .5:
            d = dict(d, v=rng.randbytes(rng.choice([2, 300, 700])))
        elif z < .7 and isinstance(d.get("a"), dict):
            d = dict(d, a=dict(d["a"], token=rng.randbytes(rng.choice([4, 600])), **{"x%d" % rng.randrange(10 ** 6): 1}))
        return d

    def query(i):
        q, a = rng.choice([("ping", {}), ("find_node", dict(target=ids())), ("get_peers", dict(info_hash=ids()))])
        return fill(dict(t=t() if rng.random() < .8 else rng.randbytes(300), y="q", q=q, a=dict(a, id=ids())))

    def refused(i):
        return rng.choice([dict(t=t(), y="q", q="m%d" % i + "x" * rng.choice([0, 800]), a=dict(id=ids())), dict(t=t(), y="q", q=rng.randbytes(rng.choice([9, 500])), a=dict(id=ids())),
                           fill(dict(t=t(), y="q", q="ping", a=dict(id="short"))), fill(dict(t=t(), y="q", q="get_peers", a=dict(id=ids()))),
                           dict(t=t(), y="q", q="ping", a=dict(id=rng.randbytes(700))),
                           dict(t=t(), y="q", q="announce_peer", a=dict(id=ids(), info_hash=ids(), token="x")), dict(t=t(), y="q", q="find_node", a=[])])

    def junk(i):
        b = benc(query(i))
        return rng.choice([b[:rng.randrange(len(b))], rng.randbytes(rng.randrange(900)), b"", b"l" * 400, b"d" + b"4:abcd" * 100, dict(y="z", t=t()), dict(y=i), dict(t=t(), x=ids()), [t(), ids()]])

    def unasked(i):
        return fill(dict(t=rng.choice([t(), b"%04x" % rng.randrange(20000, 60000), rng.randbytes(300), struct.pack(">H", rng.randrange(65536))]), y="r",
                    r=dict(id=ids(), nodes=b"".join(ids() + rng.randbytes(6) for _ in range(4)), token=ids())))

    def error(i):
        return fill(dict(t=rng.choice([t(), b"%04x" % rng.randrange(1000, 60000), rng.randbytes(300)]), y="e", e=[rng.choice([201, 203, -1]), rng.randbytes(rng.randrange(500))]))

    def sources(i):
        s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        s.bind(("127.%d.%d.%d" % (rng.randrange(1, 250), rng.randrange(250), rng.randrange(1, 250)), 0))
        H.send(rng.choice([query, query, refused, unasked, error])(i), s)
        s.close()

    def told(i):
        H.drain()
        if not H.asked:
            return H.send(unasked(i))
        s, x = H.asked.pop(rng.randrange(len(H.asked)))
        own = hashlib.sha1(b"galaio.p2pclawer").digest()
        ns = b""
        for _ in range(rng.choice([0, 5, 10, 20])):
            k = rng.randrange(100)
            v = int.from_bytes(own, "big") ^ (1 << (159 - k)) ^ rng.getrandbits(159 - k)
            a = rng.choice(H.u).getsockname()
            ns += v.to_bytes(20, "big") + socket.inet_aton(a[0]) + struct.pack(">H", a[1])
        b = benc(dict(t=x, y="r", r=dict(id=ids(), nodes=ns)))
        for _ in range(rng.choice([1, 1, 3])):
            H.send(b, s)

    had = []

    def announce(mode):
        def f(i):
            if had and rng.random() < .3:       # one that has been saved
                h = rng.choice(had)
                peers.mode[h] = mode
                return H.send(dict(t=t(), y="q", q="announce_peer", a=dict(id=ids(), info_hash=h, token="t", port=peers.port)), H.u[0])
            m = benc(dict(name="n%d" % i, pieces=rng.randbytes(40 if mode != "good3" else 3 * P - 200)))
            h = hashlib.sha1(m).digest()
            peers.mode[h], peers.meta[h] = mode, m
            if mode == "good" and i < 10:
                had.append(h)
            H.send(dict(t=t(), y="q", q="announce_peer", a=dict(id=ids(), info_hash=h, token="t", port=peers.port if mode != "refused" else peers.deadport)), H.u[0])
        return f
    plain = dict(query=query, refused=refused, junk=junk, unasked=unasked, error=error)
    r = {k: (lambda i, f=f: H.send(f(i))) for k, f in plain.items()}
    r.update(sources=sources, told=told)
    r["mixed"] = lambda i: H.send(rng.choice(list(plain.values()))(i))
    return r, announce


def session(ctx, rng, name, n, each, **kw):
    peers = Peers()
    H = Held(ctx, name, **kw)
    try:
        K, announce = kinds(H, rng, peers)
        modes = sorted(set(MODES))
        # everything once, so that what is made when first needed is there
        for k in K:
            H.burst(k, 300 if k != "told" else 40, K[k])
        for m in ("refused", "good", "garbage", "wrong"):
            H.burst("fetch " + m, 4, announce(m))
        for m in ("silent", "flood", "good3"):      # every worker has its buffers
            H.burst("fetch " + m, 2 * H.cfg["fetchers"], announce(m))
        for _ in range(20):         # as many nodes as it will take
            had = H.stored
            H.burst("told", 100, K["told"])
            if H.stored < had + 20:
                break
        time.sleep(8)
        H.stored = 0
        H.rest("base")
        order = list(K)
        rng.shuffle(order)
        for k in order:
            if H.late > 1:          # something stays
                break
            H.burst(k, n // 8 if k == "told" else n * 2 // 3 if k == "sources" else n, K[k])
            H.rest("rest", 8)
        rng.shuffle(modes)
        for m in modes:             # all of one kind
            if H.late > 1:
                break
            H.burst("fetch " + m, each, announce(m))
            H.rest("rest", 25 + 2 * each / H.cfg["fetchers"])
        fs = [announce(m) for m in modes]       # all kinds at the same time
        if H.late < 2:
            H.burst("fetch", each * 4, lambda i: rng.choice(fs)(i))
            H.rest("rest", 40 + 8 * each / H.cfg["fetchers"])
        missing = [] if H.late > 1 else [m for m in modes if m != "refused" and peers.seen.get(m, 0) < each // 2]
        t = H.close()
    finally:
        peers.close()
    return t, missing


def crowded(ctx, rng, name, **kw):
    """More announces than the queue and the fetch pool take."""
    peers = Peers()
    H = Held(ctx, name, **kw)
    try:
        K, announce = kinds(H, rng, peers)
        for m in ("refused", "good", "silent"):
            H.burst("fetch " + m, 6, announce(m))
        time.sleep(1.5)
        H.rest("base")
        for ms in (("silent", "greet"), ("silent", "good", "wrong", "close"), ("refused", "deaf", "noext")):
            fs = [announce(m) for m in ms]
            H.burst("crowd of " + " ".join(ms), H.cfg["fetchers"] * 14, lambda i: rng.choice(fs)(i), step=10 ** 6)
            H.rest("rest", 40)
        return H.close()
    finally:
        peers.close()


def C28(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS P = %d F = %d Q = %d Cap = %d MaxIn = %d Broken = \"%s\"\nINVARIANTS Conns Queue Given Memory\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("Resources", cfg % (2, 2, 2, 2, ctx.pick(5, 7), "none"), must_cover=("Other", "Answered", "Unknown", "Announce", "Dial", "End"))
    for b, inv in (("open", "Given"), ("waiter", "Given"), ("remember", "Memory"), ("eager", "Conns")):
        ctx.refute("Resources", cfg % (1, 1, 2, 1, 4, b), inv)
    rng = random.Random(ctx.seed * 113 + 28)
    ctx.build_debug()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        f = [ex.submit(session, ctx, random.Random(rng.random()), "held%d" % k, ctx.pick(12000, 60000), ctx.pick(64, 160), pool=[4, 1, 16][k], fetch_pool=[16, 4, 32][k])
             for k in range(ctx.pick(1, 3))]
        g = [ex.submit(crowded, ctx, random.Random(rng.random()), "crowd%d" % k, pool=[2, 8, 1, 4][k], fetch_pool=[4, 2, 1, 8][k], queue=[3, 1, 5, 2][k]) for k in range(ctx.pick(2, 4))]
        traces = []
        for x in f:
            t, missing = x.result()
            if missing:
                ctx.log("few fetches of " + ", ".join(missing))
            traces.append(t)
        traces += [x.result() for x in g]
    rej = ctx.validate("Resources_Trace", traces, focus="C28")
    for i, m in rej[:1]:
        ev = traces[i]["ev"]
        ctx.violation("the crawler holds too much after %s: %s" % (next((e["kind"] for e in reversed(ev[:m]) if e["e"] == "burst"), "?"), ev[m]),
                      dict(kind="trace", cfg=traces[i]["cfg"], before=ev[:m + 1]))
    ctx.sample(traces[0]["ev"][-6:])
    if os.environ.get("DUMP"):
        for e in traces[0]["ev"]: print(e)
    ctx.assumptions += ["memory: up to 1 MB more than before the messages counts as the same, and 16 KB for each fetch worker and 2 KB for each node stored since"]
