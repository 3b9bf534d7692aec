"""C01, C02, C05, C06: the running crawler, seen from the network."""
import hashlib
import json
import os
import random
import select
import selectors
import socket
import struct
import threading
import time

import lib
from node import Node, bdec, benc

OWN = hashlib.sha1(b"galaio.p2pclawer").digest()


# ------------------------------------------------------------------ the network around the crawler

class Net:
    """UDP sockets, each with a TCP listener on the same port, and TCP listeners on other ports of the same addresses."""

    def __init__(self, n, ips=("127.0.0.1", "127.0.0.2", "127.0.0.3"), v6=1, extra=2, modes=("read",), round_ports=0):
        self.u, self.dials, self.lock = [], [], threading.Lock()
        self.sel, self.stopping = selectors.DefaultSelector(), False
        self.tcp = {}                       # ip -> extra ports
        self.addrs = set()                  # where connections are seen
        self.keep = []
        k = 0
        for i in range(n):
            ip = "::1" if i >= n - v6 else ips[i % len(ips)]
            fam = socket.AF_INET6 if ":" in ip else socket.AF_INET
            while True:
                u = socket.socket(fam, socket.SOCK_DGRAM)
                u.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4 << 20)
                try:
                    u.bind((ip, 256 * random.randrange(20, 120) if i < round_ports else 0))
                except OSError:
                    u.close()
                    continue
                try:
                    self._listen(fam, ip, u.getsockname()[1], modes[k % len(modes)])
                    break
                except OSError:
                    self.keep.append(u)     # the port is in use: hold it and try another
            u.setblocking(False)
            self.u.append(u)
            k += 1
        for ip in sorted({u.getsockname()[0] for u in self.u}):
            self.tcp[ip] = []
            for m in modes:
                for _ in range(extra):
                    self.tcp[ip].append(self._listen(socket.AF_INET6 if ":" in ip else socket.AF_INET, ip, 0, m))
        self.t = threading.Thread(target=self._serve, daemon=True)
        self.t.start()

    @staticmethod
    def name(ip, port):
        return "[%s]:%d" % (ip, port) if ":" in ip else "%s:%d" % (ip, port)

    def ip(self, i):
        x = self.u[i].getsockname()[0]
        return "[%s]" % x if ":" in x else x

    def port(self, i):
        return self.u[i].getsockname()[1]

    def addr(self, i):
        return self.name(*self.u[i].getsockname()[:2])

    def _listen(self, fam, ip, port, mode):
        s = socket.socket(fam, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind((ip, port))
        except OSError:
            s.close()
            raise
        s.listen(512)
        s.setblocking(False)
        port = s.getsockname()[1]
        self.addrs.add(self.name(ip, port))
        self.sel.register(s, selectors.EVENT_READ, ("listen", self.name(ip, port), mode))
        return port

    def _serve(self):
        conns = {}

        def done(c):
            at, mode, buf, _ = conns.pop(c)
            with self.lock:
                self.dials.append(dict(e="dial", at=at, hash=list(buf[28:48]) if len(buf) == 68 else []))
            try:
                if mode == "hang":
                    conns[c] = (at, "held", b"", 0)
                    return
                if mode == "garbage":
                    c.send(os.urandom(200))
                if mode == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            except OSError:
                pass
            self.sel.unregister(c)
            c.close()
        while not self.stopping:
            for key, _ in self.sel.select(0.05):
                if key.data[0] == "listen":
                    try:
                        c, _ = key.fileobj.accept()
                    except OSError:
                        continue
                    c.setblocking(False)
                    conns[c] = (key.data[1], key.data[2], b"", time.time())
                    self.sel.register(c, selectors.EVENT_READ, ("conn",))
                else:
                    c = key.fileobj
                    at, mode, buf, t0 = conns[c]
                    try:
                        b = c.recv(68 - len(buf) if mode != "held" else 65536)
                    except OSError:
                        b = b""
                    if mode == "held":
                        if not b:
                            self.sel.unregister(c)
                            conns.pop(c)
                            c.close()
                        continue
                    buf += b
                    conns[c] = (at, mode, buf, t0)
                    if not b or len(buf) == 68:
                        done(c)
            for c in [c for c, x in conns.items() if x[1] != "held" and time.time() - x[3] > .7]:
                done(c)

    def seen(self):
        with self.lock:
            return len(self.dials)

    def take(self):
        with self.lock:
            d, self.dials[:] = list(self.dials), []
        return d

    def close(self):
        self.stopping = True
        self.t.join()
        for k in list(self.sel.get_map().values()):
            k.fileobj.close()
        for u in self.u + self.keep:
            u.close()


class Session:
    """One crawler process and what passes between it and the network, as a trace."""

    def __init__(self, ctx, name, net, pool=1, patience=20, **kw):
        self.ctx, self.net, self.name, self.pool, self.patience = ctx, net, name, pool, 3 if getattr(ctx, "dead", False) else patience
        self.node = Node(ctx, name, pool=pool, **kw)
        self.node.boot.setblocking(False)
        b = self.node.boot.getsockname()
        self.socks = net.u + [self.node.boot]
        self.at = {s: Net.name(*s.getsockname()[:2]) for s in self.socks}
        self.cfg = dict(own=list(OWN), boot=[self.at[self.node.boot]], socks=sorted(self.at.values()), tcp=sorted(net.addrs), bucket=8)
        self.ev = []
        self.queries, self.used = [], set()     # (socket, transaction id) of queries from the crawler; ids responded to
        self.waiting, self.anns = {}, {}        # guesses for knowing when to stop waiting; the specification decides
        self.want_dials = self.barrier = self.slow = 0
        self.dead = False
        self.past = []
        self.logged = b""
        net.take()
        for u in net.u:                         # left over from an earlier crawler
            try:
                while True:
                    u.recvfrom(65536)
            except (BlockingIOError, ConnectionRefusedError):
                pass
        self._out(self.node.boot, self.node.first)

    def _out(self, s, b):
        at = self.at[s]
        self.ev.append(dict(e="out", to=at, bytes=list(b)))
        try:
            d, _ = bdec(b)
            t = d.get(b"t")
            if d.get(b"y") == b"q":
                self.queries.append((s, t))
                return
            if self.waiting.get((at, t)):
                self.waiting[(at, t)] -= 1
            if d.get(b"y") == b"r" and self.anns.get((at, t)):
                if self.anns[(at, t)].pop(0) in self.net.addrs:
                    self.want_dials += 1
        except (ValueError, AttributeError, TypeError):
            pass

    def send(self, s, b, rng=None):
        """s: index of a socket, or a socket. rng: often it is sent again, exactly as it is."""
        if rng:
            while rng.random() < .12:
                self.send(s, b)
            if self.past and rng.random() < .06:
                self.send(*rng.choice(self.past))
            self.past = self.past[-40:] + [(s, b)]
        if isinstance(s, int):
            s = self.net.u[s]
        ip, port = s.getsockname()[:2]
        at = self.at[s]
        try:
            d, n = bdec(b)
            t, a = d.get(b"t"), d.get(b"a")
            if d.get(b"y") == b"q" and isinstance(t, bytes) and isinstance(d.get(b"q"), bytes) and n == len(b) and len(b) <= 1024:
                self.waiting[(at, t)] = self.waiting.get((at, t), 0) + 1
                if d[b"q"] == b"announce_peer" and isinstance(a, dict):
                    im = a.get(b"implied_port")
                    p = port if isinstance(im, int) and im > 0 else a.get(b"port")
                    self.anns.setdefault((at, t), []).append(
                        Net.name(ip, p) if isinstance(p, int) and isinstance(a.get(b"info_hash"), bytes) and len(a[b"info_hash"]) == 20 else "")
        except (ValueError, AttributeError, TypeError, RecursionError):
            pass
        self.ev.append(dict(e="in", **{"from": at}, ip="[%s]" % ip if ":" in ip else ip, bytes=list(b)))
        try:
            s.sendto(b, ("::1", self.node.addr[1]) if s.family == socket.AF_INET6 else self.node.addr)
        except OSError as e:
            raise lib.CheckError("sendto: %s" % e)

    def drain(self):
        n = 0
        for s in self.socks:
            while True:
                try:
                    b, a = s.recvfrom(65536)
                except (BlockingIOError, ConnectionRefusedError):
                    break
                if a[1] == self.node.addr[1]:
                    self._out(s, b)
                n += 1
        return n

    def owing(self):
        return sum(self.waiting.values())

    def settle(self, asks=0, grace=.02):
        """Waits until all sent datagrams have been handled. asks: queries of the crawler waited for, at most."""
        self.barrier += 1
        t = b"bar%d" % self.barrier
        self.send(self.node.boot, benc(dict(t=t, y="q", q="ping", a=dict(id="B" * 20))))
        end, me = time.time() + self.patience, (self.at[self.node.boot], t)
        had = len(self.queries)
        while self.waiting.get(me) and time.time() < end:
            if not self.drain():
                if not self.node.alive():
                    break
                time.sleep(.0005)
        ok = not self.waiting.get(me)
        slow = .02 if self.slow > 2 else .2 if self.slow else 1
        end = time.time() + slow * (1 if self.pool == 1 else 15)
        while ok and (self.owing() > 0 or len(self.queries) < had + asks) and time.time() < end:
            if not self.drain():
                time.sleep(.001)
        if self.owing() > 0 or len(self.queries) < had + asks:
            self.slow += 1          # what is missing will hardly come
        time.sleep(grace if self.pool == 1 else .1)
        self.drain()
        self.waiting.clear()
        self.ev.append(dict(e="settled", ok=ok))
        if not ok:
            self.node.check_alive("while handling datagrams", dict(name=self.name, last=self.ev[-40:]))
            self.dead = self.ctx.dead = True
        return ok

    def read_log(self):
        """What has been added to the log of info-hashes, as an event."""
        try:
            with open(os.path.join(self.node.dir, "logs", "infohash.log"), "rb") as f:
                b = f.read()
        except FileNotFoundError:
            b = b""
        kept, new = b.startswith(self.logged), b[len(self.logged):]
        self.logged = b
        self.ev.append(dict(e="log", kept=kept, lines=self.log_lines(new)))

    @staticmethod
    def log_lines(new):
        ls = []
        for x in new.split(b"\n")[:-1] if new.endswith(b"\n") else new.split(b"\n") if new else []:
            e = dict(ok=False, msg="", addr="", hash=[], port=[])
            try:
                d = json.loads(x)
                e = dict(ok=sorted(d) in (["addr", "infoHash", "level", "msg", "port", "ts"], ["addr", "infoHash", "level", "msg", "ts"]), msg=d["msg"], addr=d["addr"],
                         hash=list(bytes.fromhex(d["infoHash"])), port=list(b"%d" % d["port"]) if "port" in d else [])
            except (ValueError, KeyError, TypeError):
                e["msg"] = x[:300].decode("latin-1")
            ls.append(e)
        return ls

    def pingpong(self, jobs, wait=2):
        """Clients (socket index -> datagrams) that each wait for a reply and look at the log at once."""
        path, lock = os.path.join(self.node.dir, "logs", "infohash.log"), threading.Lock()
        fds = []

        def look(at):
            if not fds and os.path.exists(path):
                fds.append(os.open(path, os.O_RDONLY))
            return os.pread(fds[0], 1 << 20, at) if fds else b""

        def client(i):
            s = self.net.u[i]
            for b in jobs[i]:
                with lock:
                    self.send(i, b)
                if not select.select([s], [], [], wait)[0]:
                    continue
                try:
                    r, a = s.recvfrom(65536)
                except (BlockingIOError, ConnectionRefusedError):
                    continue
                had = len(self.logged)
                new = look(had)
                with lock:
                    self._out(s, r)
                    if not new.endswith(b"\n"):     # another's may be half there
                        new = new[:new.rfind(b"\n") + 1]
                    new = new[max(0, len(self.logged) - had):]
                    self.logged += new
                    self.ev.append(dict(e="log", kept=True, lines=self.log_lines(new)))
        ts = [threading.Thread(target=client, args=(i,)) for i in jobs]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for fd in fds:
            os.close(fd)
        self.drain()

    def finish(self, sentinel=True):
        """The end of a session: fetches are waited for; the crawler has to be alive."""
        if not self.dead:
            if sentinel:
                h = random.Random(len(self.ev)).randbytes(20)
                self.send(0, benc(dict(t="last", y="q", q="announce_peer", a=dict(
                    id="B" * 20, info_hash=h, port=self.net.port(0), token="t"))))
                self.settle()
            n, end = 0, time.time() + 5
            while n < self.want_dials and time.time() < end and self.node.alive():
                time.sleep(.01)
                if self.net.seen() > n:         # as long as it goes on
                    n, end = self.net.seen(), time.time() + 5
            time.sleep(.25)
            self.drain()
            self.ev += self.net.take()
            self.ev.append(dict(e="fetched"))
        self.node.check_alive("at the end of a session", dict(name=self.name, last=self.ev[-40:]))
        self.node.race_check(dict(name=self.name))
        self.node.kill()
        return dict(cfg=self.cfg, ev=self.ev)


# ------------------------------------------------------------------ datagrams

def rid(rng):
    return rng.choice([rng.randbytes(20), bytes([rng.randrange(256)]) * 20, b"aB" * 10, b"0" * 20])


def concrete(rng, sh, net, i, t=None, hashes=None):
    """A datagram of the shape, from socket i."""
    L = dict(sh["v"])
    by = {"none": None, "int": rng.choice([0, 7, -3, 1 << 40]), "list": rng.choice([[], [1], ["a" * 20]])}

    def s(lab, f=None):
        if lab in by:
            return by[lab]
        if f is not None and lab == "20":
            return f
        return rng.choice([rng.randbytes(int(lab)), b"\x00" * int(lab), b"e" * int(lab)])
    tx = s(L["t"]) if t is None or L["t"] != "2" else t
    D = dict(t=tx, y={"none": None, "int": 1, "list": ["q"], "empty": "", "Q": "Q", "x": rng.choice(["x", "qq", "\0"])}.get(L["y"], L["y"]))
    if "q" in L:
        good = {"ping": "ping", "find": "find_node", "get": "get_peers", "ann": "announce_peer"}[sh["kind"]]
        D["q"] = {"none": None, "int": 4, "list": [good], "empty": "", "upper": good.upper(), "unknown": rng.choice(["vote", "sample_infohashes", "get", "put", "x" * 60, "y" * rng.choice([255, 256, 500])]),
                  "longer": good + rng.choice(["s", "\0", " "]), "shorter": good[:-1]}.get(L["q"], good)
        A = dict(id=s(L["id"], rid(rng)))
        if "target" in L:
            A["target"] = s(L["target"], rid(rng))
        if "hash" in L:
            A["info_hash"] = s(L["hash"], rng.choice(hashes) if hashes else rid(rng))
        if "port" in L:
            ip = net.u[i].getsockname()[0]
            A["port"] = {"none": None, "str": rng.choice(["80", "x", ""]), "list": [80], "udp": net.port(i), "0": 0, "neg": -rng.choice([1, 80, 65535]),
                         "big": rng.choice([65536, 70000]), "huge": rng.choice([1 << 31, (1 << 63) - 1])}.get(L["port"], rng.choice(net.tcp[ip]))
            A["token"] = {"none": None, "int": 5, "empty": "", "str": rng.choice(["t", "tok", "\xff" * 8])}[L["token"]]
            A["implied_port"] = {"none": None, "str": rng.choice(["1", ""]), "list": [1], "neg": -1, "huge": rng.choice([1 << 31, (1 << 63) - 1])}.get(
                L["implied"], L["implied"])
            if A["implied_port"] in ("0", "1", "2") and L["implied"] != "str":
                A["implied_port"] = int(A["implied_port"])
        if rng.random() < .2:
            A[rng.choice(["scrape", "noseed", "want", "seed", "name"])] = rng.choice([1, "x", ["n4", "n6"], {}])
        A = {k: v for k, v in A.items() if v is not None}
        D["a"] = {"none": None, "str": rng.choice(["", "ping"]), "list": [A]}.get(L["a"], A)
    if sh["kind"] == "resp":
        e = bytes([127, 0, 0, 1]) + struct.pack(">H", net.port(0))
        n = {"none": None, "int": 3, "list": ["a"], "0": b"", "1": rng.randbytes(20) + e, "3": b"".join(rng.randbytes(20) + e for _ in range(3)),
             "partial": rng.randbytes(20) + e + rng.randbytes(rng.randrange(1, 26)), "short": rng.randbytes(rng.randrange(1, 26))}[L["nodes"]]
        R = dict(id=s(L["rid"], rid(rng)), nodes=n)
        D["r"] = {"none": None, "str": "x", "list": [R and 1], "int": 1}.get(L["r"], {k: v for k, v in R.items() if v is not None})
    if sh["kind"] == "err":
        D["e"] = {"none": None, "str": "x", "dict": {"a": 1}, "emptylist": [], "int": 1}.get(L["e"], rng.choice([[201, "Generic"], [203, "x"], [1], ["a", "b"]]))
    if rng.random() < .1:
        D["pad"] = bytes(rng.choice([100, 500, 800, 800]) - rng.randrange(60))
    if rng.random() < .15:
        D[rng.choice(["v", "ip", "ro", "x"])] = rng.choice([1, "UT\x01\x02", [], {"a": {"b": []}}])
    D = {k: v for k, v in D.items() if v is not None}
    b = benc(D)
    if rng.random() < .1:       # keys in another order
        ks = list(D)
        rng.shuffle(ks)
        b = b"d" + b"".join(benc(k) + benc(D[k]) for k in ks) + b"e"
    if "pad" in D and (len(b) > 1024 or rng.random() < .4):     # as long as can be
        n = len(D["pad"]) + 1024 - len(b)
        if n >= 100:
            b = b.replace(benc(D["pad"]), benc(bytes(n)))
    return b


def shapes(ctx, dev):
    return ctx.generate("Datagram", "SPECIFICATION Spec\nCONSTANT Dev = %d\nINVARIANT Classified\nCONSTRAINT PrintShape\nCHECK_DEADLOCK FALSE\n" % dev,
                        workers=4, timeout=600)


# ------------------------------------------------------------------ the design

DESIGN = "SPECIFICATION %s\nCONSTANTS Workers = {%s} Fetchers = {%s} QCap = %d MaxIn = %d Nodes = {%s} Cap = %d Letters = {%s} Broken = \"%s\"\n%s\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS OwnReply Answered OneFetch AskedOnce HandledOnce"


def q(xs):
    return ",".join('"%s"' % x for x in xs)


def design(ctx, letters, n, live=True, workers="w1,w2", fetchers="f1", qcap=1, cap=1, nodes=("a", "b"), cover=()):
    ctx.model_check("Crawler", DESIGN % ("FairSpec" if live else "Spec", workers, fetchers, qcap, n, q(nodes), cap, q(letters), "none",
                                         INV + ("\nPROPERTY Live" if live else "")), must_cover=cover, timeout=900)


def broken(ctx, which, letters, n, want):
    rc, out, *_ = ctx._tlc("Crawler", DESIGN % ("FairSpec", "w1,w2", "f1", 1, n, q(["a", "b"]), 1, q(letters), which,
                                              "PROPERTY Live" if want.startswith("Live") else "INVARIANT " + want.split()[0]), timeout=300)
    if want not in out:
        raise lib.CheckError("Crawler with Broken = %s should give '%s':\n%s" % (which, want, out[-2000:]))


def judge(ctx, traces, focus, what):
    rej = ctx.validate("Crawler_Trace", traces, focus=focus, batch=1 if len(traces) <= 100 else None)
    for i, n in rej[:1]:
        ev = traces[i]["ev"]

        def show(e):
            e = dict(e)
            if "bytes" in e:
                e["bytes"] = repr(bytes(e["bytes"]))
            return e
        near = [show(e) for e in ev[max(0, n - 80):n + 1]]
        ctx.violation("%s: after %d explained events no behaviour of the specification gives %s" % (what, n, json.dumps(near[-1])[:600]),
                      dict(kind="trace", failed_at=n, before=near))


def batches(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def query(rng, kind, t, sh, net, i, hashes=None):
    return concrete(rng, rng.choice(sh[kind]), net, i, t=t, hashes=hashes)


def by_exp(sh):
    r = {}
    for s in sh:
        r.setdefault(s["exp"], []).append(s)
        r.setdefault((s["kind"], s["exp"]), []).append(s)
    return r


def crosstalk(ctx, rng, name, sh, rounds, race, perturb, n=12, pool=16):
    """Many clients ask different things under the same transaction ids at once."""
    net = Net(n)
    try:
        S = Session(ctx, name, net, pool=pool, fetch_pool=4, queue=1000, race=race, perturb=perturb)
        for r in range(rounds):
            jobs = []
            for i in range(n):
                ts = [b"%02x" % k for k in range(rng.choice([1, 2, 4]))]
                for t in ts:
                    k = rng.choice(["ok", "ok", ("find", "ok"), ("get", "ok"), "err", "err", "none"])
                    jobs.append((i, concrete(rng, rng.choice(sh[k]), net, i, t=t)))
            rng.shuffle(jobs)
            for i, b in jobs[:40]:
                S.send(i, b, rng)
            if not S.settle():
                break
        return S.finish()
    finally:
        net.close()


def C01(ctx):
    design(ctx, ["good", "bad", "ann", "junk"], ctx.pick(3, 4), live=True, cover=("Take", "Queue", "Build", "Send"))
    design(ctx, ["good", "bad"], ctx.pick(3, 4), workers="w1,w2,w3", live=False)
    broken(ctx, "register", ["good", "bad"], 3, "OwnReply is violated")
    rng = random.Random(ctx.seed * 89 + 1)
    sh = shapes(ctx, 2)
    E = by_exp(sh)
    todo = [s for s in sh if s["exp"] in ("ok", "err", "either")]
    todo += rng.sample(E["none"], min(len(E["none"]), ctx.pick(150, 1500)))
    if ctx.thorough:
        more = [s for s in shapes(ctx, 3) if s["exp"] in ("ok", "err", "either")]
        todo += rng.sample(more, min(len(more), 12000))
    rng.shuffle(todo)
    traces = []
    for k, part in enumerate(batches(todo, ctx.pick(600, 800))):
        net = Net(6)
        try:
            S = Session(ctx, "shapes%d" % k, net, fetch_pool=4, queue=10000)
            for b in batches(part, 20):
                for s in b:
                    i = rng.randrange(6)
                    n = rng.choice([2, 2, 2, 0, 1, 3, 8, 20, 127, 128, 200, 255, 256, 400, 650, 800])
                    # often ids that others use too
                    t = rng.choice([b"aa", b"\0\0", b"\xff\xfe", b"e1", b"i1e", rng.randbytes(n), rng.randbytes(n)])
                    b = concrete(rng, s, net, i, t=t)
                    S.send(i, b if len(b) <= 1024 else concrete(rng, s, net, i, t=b"aa"), rng)
                if not S.settle():
                    break
            traces.append(S.finish())
        finally:
            net.close()
    ctx.sample(dict(shape=todo[0]))
    for j in range(ctx.pick(2, 8)):
        traces.append(crosstalk(ctx, rng, "talk%d" % j, E, ctx.pick(25, 80), race=j % 2 == 1, perturb=True))
    traces += lives(ctx, rng, E, ctx.pick(2, 12))
    judge(ctx, traces, "C01", "query handling")
    ctx.assumptions += ["loopback delivers datagrams in order and loses none while the socket buffer has room"]


# ------------------------------------------------------------------ C02

def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 4, 10])):
        r, n = rng.random(), len(b)
        i = rng.randrange(n + 1)
        if r < .3 and n:
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        elif r < .45:
            b[i:i] = bytes([rng.choice(b"dlie0123456789:-\0\xff")])
        elif r < .6 and n:
            del b[rng.randrange(n)]
        elif r < .7:
            del b[i:]
        elif r < .8 and n:
            j = rng.randrange(n)
            b[i:i] = b[j:j + rng.randrange(1, 20)]
        elif r < .9 and n:
            b[rng.randrange(n)] = rng.choice(b"dlie0123456789:-")
        else:
            b[i:i] = rng.choice([b"99999999999999999999:", b"i-0e", b"i00e", b"i9223372036854775808e", b"-1:", b"0:", b"de", b"le", b"i e", b"1000:", b"4294967297:"])
    return bytes(b[:1024])


def nasty(rng):
    """Datagrams that are hard on a decoder."""
    r = []
    for n in (1, 2, 100, 500, 1000, 1024):
        r += [b"l" * n, b"d" * n, b"i" * n, b"1" * n, b"l" * (n // 2) + b"e" * (n // 2), b":" * n, b"d1:a" * (n // 4), b"i" + b"9" * (n - 1),
              b"d1:al" * (n // 5), b"d1:y1:q1:t2:aa1:q4:ping1:a" + b"d2:id" * (n // 6), bytes(n), b"e" * n, b"-" * n]
    r += [b"", b"d", b"de", b"le", b"i1e", b"0:", b"4:ping", b"d1:y1:qe", b"d1:y1:q1:t2:aae", b"d1:y1:q1:t2:aa1:q4:pinge", b"d1:y1:re", b"d1:y1:ee",
          b"d1:y1:e1:t2:aae", b"d1:e1:x1:t2:aa1:y1:ee", b"d1:rd2:id20:" + b"a" * 20 + b"e1:t2:aa1:y1:re", b"d1:ri1e1:t2:aa1:y1:re", b"d1:y0:e", b"d1:yi1ee",
          b"d1:y99999999999:qe", b"d1:y18446744073709551617:qe", b"d1:y-1:qe", b"d1:t9223372036854775807:aa1:y1:qe", b"d9223372036854775800:", b"d1:y1:q",
          b"d1:ad2:id20:" + b"a" * 20 + b"e1:q4:ping1:t2:aa1:y1:q", b"d3:abc", b"di1e1:ae", b"dle1:ae", b"dde1:ae", b"d1:ade1:q9:find_node1:t2:aa1:y1:qe"]
    return r


def own_tx(S, b):
    """b may be taken for a response to a query that the crawler still has outstanding"""
    return any(t in b for _, t in S.queries if t) or b"03e9" in b


def C02(ctx):
    design(ctx, ["good", "ann", "junk"], ctx.pick(4, 5), cover=("Take", "Queue", "Build", "Send", "Begin", "End"))
    design(ctx, ["good", "junk", "resp"], 2, cover=("Learn", "Ask"))
    broken(ctx, "die", ["good", "junk"], 4, "Live was violated")
    broken(ctx, "hang", ["good", "ann"], 4, "Live was violated")
    rng = random.Random(ctx.seed * 97 + 2)
    sh = shapes(ctx, 2)
    E = by_exp(sh)
    traces = []

    def session(name, groups, pool=1, **kw):
        """groups: lists of functions of the session giving (socket, datagram)"""
        net = Net(6)
        try:
            S = Session(ctx, name, net, pool=pool, **dict(dict(fetch_pool=4, queue=10000), **kw))
            for g in groups:
                for f in g:
                    i = rng.randrange(6)
                    b = f(S, i)
                    if b is not None and not own_tx(S, b):
                        S.send(i, b, rng)
                if not S.settle():
                    break
            traces.append(S.finish())
        finally:
            net.close()

    def shape(s, t=None):
        return lambda S, i: concrete(rng, s, S.net, i, t=t or rng.choice([b"aa", rng.randbytes(2)]))

    def mut(s):
        return lambda S, i: mutate(rng, concrete(rng, s, S.net, i, t=b"aa"))

    def raw(b):
        return lambda S, i: b
    # every shape that is not to be answered, every hard datagram, every prefix of good ones
    none = list(E["none"])
    rng.shuffle(none)
    fs = [shape(s) for s in none[:ctx.pick(700, 10 ** 6)]] + [raw(b) for b in nasty(rng)]
    for k in ("ping", "ann"):
        g = benc(dict(t="aa", y="q", q=dict(ping="ping", ann="announce_peer")[k], a=dict(
            id="i" * 20, **(dict(info_hash="h" * 20, port=9, token="t", implied_port=1) if k == "ann" else {}))))
        fs += [raw(g[:n]) for n in range(len(g))]
    e = bytes([127, 0, 0, 1, 0, 9])
    g = benc(dict(t="zz", y="r", r=dict(id="i" * 20, nodes=b"n" * 20 + e)))
    fs += [raw(g[:n]) for n in range(len(g) + 1)]
    rng.shuffle(fs)
    for k, part in enumerate(batches(fs, 600)):
        session("junk%d" % k, batches(part, 20))
    # mutations
    base = E["ok"] + E["ok"] + E["err"] + E["none"]
    fs = [mut(rng.choice(base)) for _ in range(ctx.pick(1800, 30000))] + [raw(rng.randbytes(rng.randrange(1025))) for _ in range(ctx.pick(60, 2000))]
    rng.shuffle(fs)
    for k, part in enumerate(batches(fs, 620)):
        session("fuzz%d" % k, batches(part, 20))
    # the same with several workers and the race detector
    for k in range(ctx.pick(1, 6)):
        fs = [mut(rng.choice(base)) if rng.random() < .5 else shape(rng.choice(base)) for _ in range(ctx.pick(300, 1500))]
        session("many%d" % k, batches(fs, 30), pool=8, race=True, perturb=k % 2 == 1)
    # what is no answer to a query of the crawler's, with nodes that would be seen to be queried
    net = Net(8, v6=0)
    try:
        S = Session(ctx, "lures", net, fetch_pool=1, queue=100)
        t0 = S.queries[0][1] if S.queries else b"03e9"
        for r in range(ctx.pick(12, 100)):
            for _ in range(10):
                ns = b"".join(entry(rng.randbytes(20), rng.choice(net.u).getsockname()) for _ in range(rng.choice([1, 2, 8])))
                i = rng.randrange(8)
                if rng.random() < .6:
                    S.send(i, lure(rng, t0, ns))
                else:
                    t = rng.choice([b"zz", b"", t0[:3], t0 + b"0", t0 + b"\0", rng.randbytes(4), rng.randbytes(2), b"%04x" % rng.randrange(1 << 16)])
                    if t != t0:
                        S.send(i, response(t, ns, rng))
            if not S.settle():
                break
        traces.append(S.finish(sentinel=False))
    finally:
        net.close()
    # many bad datagrams in a row use up nothing
    for k, pool in enumerate(ctx.pick([2], [1, 2, 4])):
        net = Net(3)
        try:
            S = Session(ctx, "flood%d" % k, net, pool=pool, fetch_pool=1, queue=10000)
            hard = [b for b in nasty(rng) if len(b) < 200] + [concrete(rng, s, net, 0, t=b"aa") for s in rng.sample(E["none"] + E["err"], 60)]
            hard = [b for b in hard if not own_tx(S, b)]
            for r in range(ctx.pick(12, 150)):
                for b in rng.sample(hard, 40):
                    S.send(0, b)
                if not S.settle(grace=0):
                    break
            traces.append(S.finish())
        finally:
            net.close()
    # fetches that hang hold the node up only for as long as they may take
    for k, (pool, fetchers, queue) in enumerate(ctx.pick([(2, 2, 1)], [(1, 1, 1), (2, 2, 1), (4, 3, 2), (8, 1, 4)])):
        net = Net(4, extra=1, modes=("hang",))
        try:
            S = Session(ctx, "hang%d" % k, net, pool=pool, fetch_pool=fetchers, queue=queue, patience=60)
            for r in range(2):
                for j in range(2 * (pool + queue) + fetchers):
                    S.send(j % 4, concrete(rng, dict(kind="ann", exp="ok", v=[s.split("=") for s in (
                        "y=q", "t=2", "q=announce_peer", "a=dict", "id=20", "hash=20", "port=tcp", "token=str", "implied=0")]), net, j % 4, t=b"%02d" % j))
                S.send(0, benc(dict(t="pp", y="q", q="ping", a=dict(id="P" * 20))))
                if not S.settle():
                    break
            traces.append(S.finish(sentinel=False))
        finally:
            net.close()
    traces += lives(ctx, rng, E, ctx.pick(2, 12))
    judge(ctx, traces, "C02", "any datagram sequence")
    ctx.sample(dict(datagrams=[repr(bytes(e["bytes"]))[:200] for e in traces[-1]["ev"][:6] if "bytes" in e]))
    ctx.assumptions += ["responses to outstanding queries are sent well-formed, or without any node that can be seen to be queried"]


# ------------------------------------------------------------------ C05

def id_at(rng, p):
    """An id that shares exactly p leading bits with the crawler's own."""
    if p == 160:
        return OWN
    x = int.from_bytes(OWN, "big")
    r = rng.getrandbits(159 - p) if p < 159 else 0
    return ((x >> (160 - p) << (160 - p)) | ((~(x >> (159 - p)) & 1) << (159 - p)) | r).to_bytes(20, "big")


def entry(nid, addr):
    ip, port = addr
    return nid + socket.inet_aton(ip) + struct.pack(">H", port)


def response(t, nodes, rng, **kw):
    R = dict(id=rng.randbytes(20), nodes=nodes, **kw)
    D = dict(t=t, y="r", r=R)
    if rng.random() < .2:
        D["v"] = "LT\x01\x02"
    return benc(D)


def lure(rng, t, ns):
    """Not a response, but for its kind it would be one to query t."""
    D = dict(t=t, r=dict(id=rng.randbytes(20), nodes=ns))
    y = rng.choice([None, "R", "x", "", 1, [], "rr", "r ", "q", "Q"])
    if y is not None:
        D["y"] = y
    if y == "q" and rng.random() < .5:
        D.update(q="find_node", a=dict(id=rng.randbytes(20), target=rng.randbytes(20)))
    return benc(D)


def replay_model(ctx, rng, S, h, nodes, classes, tail_id):
    """A behaviour of Crawler.tla, one datagram handled before the next. nodes: the model's node -> (id, address)."""
    k = 1
    base = len(S.queries) - 1
    for d in h:
        if d["k"] == "resp":
            ns = b"".join(entry(*nodes[n]) for n in d["ns"])
            i = base + d["tx"] - 1
            if d["tx"] == 99 or i >= len(S.queries):
                t, s = rng.choice([b"9999", b"zz", b""]), S.net.u[0]
            else:
                s, t = S.queries[i]
            tail = entry(tail_id(), S.net.u[rng.randrange(4)].getsockname())[:rng.choice([0, 0, 1, 5, 6, 20, 24, 25])]
            S.send(s, response(t, ns + tail, rng))
        else:
            i = rng.randrange(len(S.net.u))
            S.send(i, concrete(rng, rng.choice(classes[d["k"]]), S.net, i, t=b"m%d" % k))
        k += 1
        if not S.settle(grace=.002):
            return


def C05(ctx):
    design(ctx, ["resp"], ctx.pick(2, 3), cover=("Take", "Learn", "Ask"))
    design(ctx, ["resp", "good"], 2, nodes=("a", "b", "c"), cap=2, live=False, workers="w1,w2")
    broken(ctx, "again", ["resp"], 2, "HandledOnce is violated")
    rng = random.Random(ctx.seed * 101 + 5)
    sh = shapes(ctx, 1)
    E = by_exp(sh)
    classes = dict(good=E["ok"], bad=E["err"], ann=E["ann", "ok"], junk=[s for s in E["none"] if s["kind"] != "resp"])
    traces = []
    socks = ctx.pick(20, 30)
    ips = ("127.0.0.1", "127.0.0.2", "127.255.255.254", "127.10.13.58", "127.0.0.0" if False else "127.128.1.100")
    # behaviours of the model: ten nodes, room for eight
    beh = ctx.generate("Crawler", DESIGN % ("GenSpec", "w1", "f1", 1, ctx.pick(7, 10), q("n%d" % i for i in range(10)), 8,
                                            q(["resp", "good", "junk", "ann"]), "none", "CONSTRAINT PrintHist"),
                       num=ctx.pick(40, 150), depth=400, workers=4, timeout=600)
    beh = [b for b in beh if sum(d["k"] == "resp" for d in b["h"]) >= 2]
    rng.shuffle(beh)
    net = Net(socks, ips=ips, v6=0, extra=1, round_ports=4)
    try:
        for k, b in enumerate(beh[:ctx.pick(14, 150)]):
            p = rng.choice([0, 1, 7, 8, 100, 150])
            us = rng.sample(net.u, 10)
            nodes = {"n%d" % i: (id_at(rng, p), us[i].getsockname()) for i in range(10)}
            S = Session(ctx, "model%d" % k, net, fetch_pool=1, queue=1000)
            replay_model(ctx, rng, S, b["h"], nodes, classes, lambda: id_at(rng, p))
            traces.append(S.finish(sentinel=False))
        # longer histories: several distances, full ones, repetitions, twins, own id, other addresses
        for k in range(ctx.pick(4, 30)):
            S = Session(ctx, "hist%d" % k, net, fetch_pool=1, queue=1000)
            ps = rng.choice([[0, 1, 2], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [3, 158, 159, 160], [0, 8, 16, 24, 80, 157, 158, 159]])
            seen, done = [], []
            for r in range(ctx.pick(25, 60)):
                for _ in range(rng.choice([1, 1, 2, 3])):
                    open_ = [x for x in S.queries if x[1] not in S.used]
                    ns = b""
                    for _ in range(rng.choice([0, 1, 2, 3, 8, 8, 12, 30])):
                        z = rng.random()
                        at = rng.choice(net.u).getsockname()
                        if z < .08:
                            at = (rng.choice(["127.0.0.9", "10.1.2.3", "0.0.0.0", "255.255.255.255", "127.0.0.1"]), rng.choice([0, 1, 9, 65535]))
                        if z > .75 and seen:
                            nid, at0 = rng.choice(seen)
                            if z > .92:
                                at = at0            # the very same
                            elif z < .8:
                                nid, at = bytes(c ^ 32 if chr(c).isalpha() else c for c in nid), at0   # its twin in letter case
                        else:
                            nid = id_at(rng, rng.choice(ps))
                        seen.append((nid, at))
                        ns += entry(nid, at)
                    if rng.random() < .5:           # a part of one more
                        ns += entry(id_at(rng, rng.choice(ps)), net.u[rng.randrange(4)].getsockname())[:rng.choice([1, 6, 19, 20, 24, 25, 25])]
                    z = rng.random()
                    if not open_ or z < .1:         # unsolicited
                        t = rng.choice([b"zz", b"", b"03e", b"03e80", b"FFFF", rng.randbytes(4)])
                        if t not in {x[1] for x in S.queries}:
                            S.send(rng.randrange(socks), response(t, ns, rng))
                    elif z < .2 and done:           # once more
                        s, t = rng.choice(done)
                        S.send(s, response(t, ns, rng))
                    elif z < .25 and open_[-1][1].upper() not in {x[1] for x in S.queries}:
                        S.send(open_[-1][0], response(open_[-1][1].upper(), ns, rng))
                    elif z < .3:                    # one that says nothing of use, its query is done with
                        s, t = rng.choice(open_)
                        S.used.add(t)
                        S.send(s, rng.choice([benc(dict(t=t, y="r", r=dict(id=rng.randbytes(20)))), benc(dict(t=t, y="r")), benc(dict(t=t, y="r", r=[])),
                                              benc(dict(t=t, y="r", r=dict(id=rng.randbytes(20), nodes=[]))),
                                              benc(dict(t=t, y="r", r=dict(nodes=""))), benc(dict(t=t, y="e", e=[201, "x"]))]))
                    elif z < .42:                   # no response at all, though it has all that one needs
                        s, t = rng.choice(open_)
                        S.send(s, lure(rng, t, ns))
                    else:
                        s, t = rng.choice(open_[-30:])
                        S.used.add(t)
                        done.append((s, t))
                        kw = rng.choice([{}, {}, dict(token="x"), dict(p=9), dict(values=["abcdef"])])
                        S.send(s, response(t, ns, rng, **kw))
                if rng.random() < .3:
                    i = rng.randrange(socks)
                    S.send(i, concrete(rng, rng.choice(E[rng.choice(["ok", "err", "none"])]), net, i, t=b"aa"))
                if not S.settle(grace=.005):
                    break
            traces.append(S.finish(sentinel=False))
        # several responses at once: what is stored does not depend on their order
        for k in range(ctx.pick(2, 10)):
            S = Session(ctx, "conc%d" % k, net, pool=8, fetch_pool=1, queue=1000, race=k % 2 == 1, perturb=True)
            free = [(p, j) for p in range(60) for j in range(8)]
            rng.shuffle(free)
            seen = []
            for r in range(ctx.pick(10, 25)):
                open_ = [x for x in S.queries if x[1] not in S.used]
                want = 0
                for s, t in rng.sample(open_, min(len(open_), 8)):
                    S.used.add(t)
                    ns, n = b"", rng.choice([1, 2, 3, 6])
                    for _ in range(n):
                        if not free:
                            break
                        x = (id_at(rng, free.pop()[0]), rng.choice(net.u).getsockname())
                        seen.append(x)
                        ns += entry(*x)
                        want += 1
                    S.send(s, response(t, ns, rng))
                    if rng.random() < .3:
                        S.send(s, response(t, ns, rng))
                if not S.settle(asks=want):
                    break
            traces.append(S.finish(sentinel=False))
    finally:
        net.close()
    traces += lives(ctx, rng, E, ctx.pick(2, 12))
    judge(ctx, traces, "C05", "crawling")
    ctx.sample(dict(behaviour=beh[0]))
    ctx.assumptions += ["queries to addresses the check does not listen on are not seen"]


# ------------------------------------------------------------------ C06

def announce(rng, S, i, t, h, port=None, implied=None, **kw):
    A = dict(id=rid(rng), info_hash=h, port=port if port is not None else rng.choice(S.net.tcp[S.net.u[i].getsockname()[0]]), token="t", **kw)
    if implied is not None:
        A["implied_port"] = implied
    S.send(i, benc(dict(t=t, y="q", q="announce_peer", a=A)))


def C06(ctx):
    design(ctx, ["ann", "good", "bad"], ctx.pick(3, 4), cover=("Queue", "Begin", "End"))
    design(ctx, ["ann"], 4, fetchers="f1,f2", live=False)
    broken(ctx, "drop", ["ann"], 4, "OneFetch is violated")
    broken(ctx, "first", ["ann"], 4, "OneFetch is violated")
    broken(ctx, "hang", ["ann"], 4, "Live was violated")
    rng = random.Random(ctx.seed * 103 + 6)
    sh = [s for s in shapes(ctx, 2)]
    E = by_exp(sh)
    anns = [s for s in sh if s["kind"] == "ann" and s["exp"] != "none"]
    others = [s for s in sh if s["kind"] in ("ping", "find", "get") and s["exp"] != "none"]
    traces = []
    hs = [rng.randbytes(20) for _ in range(4)] + [b"\0" * 20]
    # all shapes of announces, other queries between them; fetchers refused or cut off at once
    rng.shuffle(anns)
    todo = anns[:ctx.pick(900, 10 ** 6)] + rng.sample(others, ctx.pick(100, 400)) + rng.sample(E["none"], ctx.pick(50, 200))
    rng.shuffle(todo)
    for k, part in enumerate(batches(todo, 350)):
        net = Net(6, v6=2, modes=("read", "garbage", "reset"), extra=1)
        try:
            S = Session(ctx, "shapes%d" % k, net, fetch_pool=rng.choice([1, 1, 4]), queue=10000)
            n = 0
            for b in batches(part, 20):
                for s in b:
                    i = rng.randrange(6)
                    n += 1
                    S.send(i, concrete(rng, s, net, i, t=b"%d" % n, hashes=hs + [rng.randbytes(20)] * 5), rng)
                if not S.settle():
                    break
            traces.append(S.finish())
        finally:
            net.close()
    # random histories: repeated announces, all ports and implied ports, peers that hang among them, short queues
    for k in range(ctx.pick(6, 40)):
        modes = rng.choice([("read",), ("read", "hang"), ("hang", "reset", "garbage"), ("read", "read", "read", "hang")])
        net = Net(6, v6=2, modes=modes, extra=2)
        pool, fetchers, queue = rng.choice([(1, 1, 1000), (1, 4, 1), (4, 4, 2), (8, 8, 3), (2, 1, 5), (8, 16, 50)])
        budget = ctx.pick(6, 20) * fetchers
        try:
            S = Session(ctx, "hist%d" % k, net, pool=pool, fetch_pool=fetchers, queue=queue, race=k % 3 == 2, perturb=k % 2 == 1, patience=60)
            n = 0
            for r in range(ctx.pick(5, 12)):
                for _ in range(rng.choice([1, 3, 10, 20])):
                    i, n = rng.randrange(6), n + 1
                    z = rng.random()
                    if "hang" in modes and n > budget:
                        z = .97
                    h = rng.choice(hs + [rng.randbytes(20)] * 3)
                    if z < .45:
                        announce(rng, S, i, b"%d" % n, h, implied=rng.choice([None, 0, -1, -(1 << 62)]))
                    elif z < .75:
                        announce(rng, S, i, b"%d" % n, h, port=rng.choice([net.port(i), 0, 1, 65535, net.port(rng.randrange(6)), 70000, -4]),
                                 implied=rng.choice([1, 1, 2, 1 << 40]))
                    elif z < .85:
                        announce(rng, S, i, b"%d" % n, h, port=1, implied=rng.choice([0, None]))    # refused
                    else:
                        S.send(i, concrete(rng, rng.choice(others + E["ann", "err"]), net, i, t=b"%d" % n, hashes=hs), rng)
                if not S.settle():
                    break
            traces.append(S.finish(sentinel="hang" not in modes))
        finally:
            net.close()
    traces += lives(ctx, rng, E, ctx.pick(2, 12))
    judge(ctx, traces, "C06", "announces")
    ctx.sample(dict(shape=anns[0]))
    ctx.assumptions += ["connections to addresses the check does not listen on are not seen"]


# ------------------------------------------------------------------ all of it together

def life(ctx, rng, name, E, rounds, pool=1, restart=True, **kw):
    """A crawler that is asked, told, lied to, announced to, and started again: queries, responses to its own, junk and announces mixed."""
    net = Net(8, v6=0, modes=("read", "garbage", "reset"), extra=1)
    traces, keep, logged = [], None, b""
    hs = [rng.randbytes(20) for _ in range(3)]
    try:
        for part in range(2 if restart else 1):
            kw = dict(dict(fetch_pool=rng.choice([1, 4]), queue=rng.choice([2, 1000])), **kw)
            if keep:
                kw["keep_dir"] = keep
            S = Session(ctx, "%s-%d" % (name, part), net, pool=pool, **kw)
            keep, S.logged = S.node.dir, logged
            free = [(p, j) for p in range(60) for j in range(8)]
            rng.shuffle(free)
            seen, done, n, ok = [], [], 0, True
            for r in range(rounds):
                want = 0
                for _ in range(rng.choice([1, 5, 15, 30])):
                    z, i, n = rng.random(), rng.randrange(8), n + 1
                    t = rng.choice([b"%d" % n, b"%d" % n, b"aa", rng.randbytes(3)])
                    if z < .45:
                        S.send(i, concrete(rng, rng.choice(E[rng.choice(["ok", "ok", "err", "either", "none"])]), net, i, t=t, hashes=hs + [rng.randbytes(20)]), rng)
                    elif z < .6:
                        announce(rng, S, i, t, rng.choice(hs + [rng.randbytes(20)]), implied=rng.choice([None, 0, 1, 1]))
                    elif z < .72:
                        b = rng.choice([mutate(rng, concrete(rng, rng.choice(E["ok"] + E["none"]), net, i, t=t)), rng.choice(nasty(rng)), rng.randbytes(rng.randrange(300))])
                        if not own_tx(S, b):
                            S.send(i, b)
                    elif z < .78 and done:              # once more
                        s, t, ns = rng.choice(done)
                        S.send(s, response(t, ns, rng))
                    else:
                        open_ = [x for x in S.queries if x[1] not in S.used]
                        if not open_:
                            continue
                        s, t = rng.choice(open_[-12:])
                        if z < .82:
                            S.send(s, lure(rng, t, entry(rng.randbytes(20), net.u[0].getsockname())))
                            continue
                        ns, m = b"", rng.choice([1, 2, 4])
                        for _ in range(m):
                            if pool == 1 and seen and rng.random() < .2:
                                ns += rng.choice(seen)
                            elif pool == 1 and rng.random() < .3:
                                ns += entry(id_at(rng, rng.choice([0, 1])), rng.choice(net.u).getsockname())
                            elif free:
                                e = entry(id_at(rng, free.pop()[0] + (2 if pool == 1 else 0)), rng.choice(net.u).getsockname())
                                seen.append(e)
                                ns += e
                                want += pool > 1
                        S.used.add(t)
                        done.append((s, t, ns))
                        S.send(s, response(t, ns, rng))
                ok = S.settle(asks=want, grace=.005)
                S.read_log()
                if not ok:
                    break
            if part == 0 and restart and ok:
                S.node.race_check(dict(name=name))
                S.node.check_alive("at the end of a session", dict(name=name, last=S.ev[-40:]))
                S.node.kill() if rng.random() < .5 else S.node.stop()
                S.read_log()
                logged = S.logged
                traces.append(dict(cfg=S.cfg, ev=S.ev))
            else:
                traces.append(S.finish(sentinel=False))
                break
    finally:
        net.close()
    return traces


def lives(ctx, rng, E, n):
    r = []
    for k in range(n):
        r += life(ctx, rng, "life%d" % k, E, ctx.pick(8, 20), pool=[1, 8][k % 2], perturb=k % 4 == 3, race=k % 4 == 1)
    return r


# ------------------------------------------------------------------ C25

LOGDESIGN = "SPECIFICATION Spec\nCONSTANTS Workers = {%s} MaxIn = %d Broken = \"%s\"\nINVARIANTS Whole Once There\nCHECK_DEADLOCK FALSE\n"


def C25(ctx):
    ctx.model_check("InfoLog", LOGDESIGN % ("w1,w2", ctx.pick(4, 5), "none"), must_cover=("Arrive", "Check", "Log", "Reply", "Restart"))
    for b, inv in (("torn", "Whole"), ("late", "There"), ("early", "Once"), ("buffer", "There"), ("fresh", "There")):
        ctx.refute("InfoLog", LOGDESIGN % ("w1,w2", 3, b), inv)
    rng = random.Random(ctx.seed * 107 + 25)
    sh = shapes(ctx, 2)
    E = by_exp(sh)
    mine = [s for s in sh if s["kind"] in ("get", "ann") and s["exp"] != "none"]
    others = [s for s in sh if s["kind"] in ("ping", "find")] + E["none"]
    rng.shuffle(mine)
    todo = mine[:ctx.pick(1100, 10 ** 6)] + rng.sample(others, ctx.pick(150, 1500))
    rng.shuffle(todo)
    hs = [rng.randbytes(20) for _ in range(3)] + [b"\0" * 20, b"\xff" * 20, b"0123456789abcdefABCD", b'"\\\n\r,:{}' * 2 + b"\0\x80"]
    traces = []

    def run(name, groups, again=False, pre=0, rounds=0, **kw):
        net = Net(6, v6=2, extra=1)
        try:
            if pre:                             # a log that is long already
                kw["keep_dir"] = ctx.mkdir(name)
                os.makedirs(os.path.join(kw["keep_dir"], "logs"))
                line = json.dumps(dict(level="info", ts=1.5, msg="get_peer", addr="127.0.0.1:1", infoHash="00" * 20)).encode() + b"\n"
                with open(os.path.join(kw["keep_dir"], "logs", "infohash.log"), "wb") as f:
                    f.write(line * (pre // len(line)))
            S = Session(ctx, name, net, **dict(dict(fetch_pool=4, queue=10000), **kw))
            if pre:
                S.logged = line * (pre // len(line))
            for r in range(rounds):
                S.pingpong({i: [concrete(rng, rng.choice(mine), net, i, t=b"p%d.%d.%d" % (r, i, j), hashes=hs) for j in range(20)] for i in range(len(net.u))})
                ok = S.settle(grace=.002)
                S.read_log()
                if not ok:
                    break
            for r, g in enumerate(groups):
                for s, i, t in g:
                    S.send(i, concrete(rng, s, net, i, t=t, hashes=hs + [rng.randbytes(20)] * 5), rng)
                ok = S.settle(grace=.002)
                S.read_log()
                if not ok:
                    break
            if again and not S.dead:        # the log goes on after a restart, however it came about
                for how in ("kill", "term"):
                    S.node.kill() if how == "kill" else S.node.stop()
                    S.read_log()
                    traces.append(dict(cfg=S.cfg, ev=S.ev))
                    d, had = S.node.dir, S.logged
                    S = Session(ctx, name, net, **dict(dict(fetch_pool=4, queue=10000), **dict(kw, keep_dir=d)))
                    S.logged = had
                    for k in range(3):
                        for j in range(rng.choice([1, 5, 20])):
                            i = rng.randrange(6)
                            S.send(i, concrete(rng, rng.choice(mine), net, i, t=b"r%d" % j, hashes=hs), rng)
                        S.settle(grace=.002)
                        S.read_log()
            return S.finish(sentinel=False)
        finally:
            net.close()
    n = 0

    def jobs(ss):
        nonlocal n
        r = []
        for s in ss:
            n += 1
            r.append((s, rng.randrange(6), b"%d" % n))
        return r
    for k, part in enumerate(batches(todo, ctx.pick(420, 700))):
        traces.append(run("shapes%d" % k, [jobs(b) for b in batches(part, 20)], again=k == 0))
    # workers that log at once
    for k in range(ctx.pick(4, 16)):
        traces.append(run("conc%d" % k, [jobs(rng.choices(E["get", "ok"] + E["ann", "ok"] + mine[:20], k=40)) for _ in range(ctx.pick(8, 25))], pool=rng.choice([4, 16]),
                          race=k % 2 == 1, perturb=k % 4 > 1, again=k == 1))
    # clients that look at the log as soon as they have a reply
    for k in range(ctx.pick(3, 8)):
        traces.append(run("look%d" % k, [], rounds=ctx.pick(2, 6), pool=[1, 16, 4][k % 3], env=dict(GOMAXPROCS="128"[k % 3]), perturb=k % 3 == 2))
    # whatever is done aside is done late
    for k in range(ctx.pick(2, 6)):
        traces.append(run("late%d" % k, [], rounds=ctx.pick(2, 6), pool=[4, 1, 16][k % 3], perturb=True, env=dict(VERIF_YIELD="late")))
    traces.append(run("long", [jobs(rng.choices(mine, k=20)) for _ in range(3)], pre=ctx.pick(24, 400) << 20, again=True))
    traces += lives(ctx, rng, E, ctx.pick(2, 12))
    judge(ctx, traces, "C25", "the log of info-hashes")
    ctx.sample(dict(log=[e for e in traces[0]["ev"] if e["e"] == "log"][0]["lines"][:4]))
    ctx.assumptions += ["rotation of the log at 500 MB is not reached"]
