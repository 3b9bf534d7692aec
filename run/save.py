"""C07: saved torrent files."""
import ctypes
import hashlib
import os
import random
import re
import resource
import select
import shutil
import signal
import socket
import struct
import threading
import time

import lib
from node import Node, bdec, benc

P = 16384
libc = ctypes.CDLL(None, use_errno=True)
MODIFY, CREATE, MOVED_TO, CLOSE_WRITE, ISDIR = 2, 0x100, 0x80, 8, 0x40000000


class World:
    """A working directory of the crawler, peers that have metadata, and the trace of what happens."""

    def __init__(self, ctx, name):
        self.ctx, self.dir = ctx, ctx.mkdir(name)
        self.t = os.path.join(self.dir, "torrent")
        self.ev, self.lock = [], threading.Lock()
        self.active, self.conns, self.stop = 0, 0, False
        self.meta = {}                  # info-hash -> metadata
        self.todo = {}                  # info-hash -> modes of the next peers
        self.got = set()
        self.node = None
        self.s = socket.socket()
        self.s.bind(("127.0.0.1", 0))
        self.s.listen(200)
        self.port = self.s.getsockname()[1]
        threading.Thread(target=self._accept, daemon=True).start()
        self.fd = libc.inotify_init1(os.O_NONBLOCK)
        if self.fd < 0:
            raise lib.CheckError("no inotify: %s" % os.strerror(ctypes.get_errno()))
        self.wcwd = libc.inotify_add_watch(self.fd, self.dir.encode(), CREATE | MOVED_TO)
        self.wt = -1
        self._watch()
        self.w = threading.Thread(target=self._events, daemon=True)
        self.w.start()

    def log(self, **e):
        with self.lock:
            self.ev.append(e)

    # -------------------------------------------------- the directory

    def _watch(self):
        w = libc.inotify_add_watch(self.fd, self.t.encode(), MODIFY | CREATE | MOVED_TO | CLOSE_WRITE)
        if w >= 0:
            self.wt = w

    def whole(self, name):
        """None if it is not there"""
        try:
            with open(os.path.join(self.t, name), "rb") as f:
                return hashlib.sha1(f.read()).hexdigest() == name[:40].lower()
        except (FileNotFoundError, NotADirectoryError):
            return None

    def _seen(self, name):
        if re.fullmatch(r"[0-9a-fA-F]{40}\.torrent", name):
            w = self.whole(name)
            if w is not None:
                self.log(e="saw", name=name[:40].lower(), whole=w)

    def _events(self):
        while not self.stop:
            if not select.select([self.fd], [], [], .05)[0]:
                continue
            try:
                b = os.read(self.fd, 65536)
            except BlockingIOError:
                continue
            while b:
                wd, mask, _, n = struct.unpack_from("iIII", b)
                name, b = b[16:16 + n].rstrip(b"\0").decode("utf-8", "replace"), b[16 + n:]
                if wd == self.wcwd:
                    if name == "torrent" and mask & ISDIR:
                        self._watch()
                        for x in os.listdir(self.t) if os.path.isdir(self.t) else []:
                            self._seen(x)
                elif re.fullmatch(r"[0-9a-fA-F]{40}\.torrent", name):
                    if mask & MODIFY:
                        self.log(e="modified", name=name[:40].lower())
                    self._seen(name)

    # -------------------------------------------------- peers

    def _accept(self):
        while not self.stop:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            with self.lock:
                self.active += 1
                self.conns += 1
            threading.Thread(target=self._peer, args=(c,), daemon=True).start()

    def _peer(self, c):
        t0 = time.time()
        try:
            c.settimeout(3)
            buf = b""

            def need(n):
                nonlocal buf
                while len(buf) < n:
                    x = c.recv(65536)
                    if not x:
                        raise EOFError
                    buf += x
                r, buf = buf[:n], buf[n:]
                return r
            h = need(68)[28:48]
            with self.lock:
                mode = self.todo[h].pop(0) if self.todo.get(h) else "good"
            m = self.meta[h]
            if mode == "hang":
                while c.recv(65536):
                    pass
                return
            c.sendall(bytes([19]) + b"BitTorrent protocol" + b"\0\0\0\0\0\x10\0\0" + h + os.urandom(20))
            theirs, served, np = None, set(), -(-len(m) // P)
            while True:
                b = need(struct.unpack(">I", need(4))[0])
                if len(b) < 2 or b[0] != 20:
                    continue
                d, n = bdec(b[2:])
                if b[1] == 0:
                    theirs = d[b"m"][b"ut_metadata"]
                    x = bytes([20, 0]) + benc(dict(m=dict(ut_metadata=3), metadata_size=len(m)))
                    c.sendall(struct.pack(">I", len(x)) + x)
                elif b[1] == 3 and d.get(b"msg_type") == 0:
                    i = d[b"piece"]
                    data = m[i * P:(i + 1) * P]
                    if mode == "cut" and i >= np // 2:
                        return
                    if mode == "corrupt" and i == np // 2:
                        data = bytes([data[0] ^ 1]) + data[1:]
                    if mode == "short" and i == np - 1:
                        data = data[:-1]
                    x = bytes([20, theirs]) + benc(dict(msg_type=1, piece=i, total_size=len(m))) + data
                    c.sendall(struct.pack(">I", len(x)) + x)
                    served.add(i)
                    if mode == "good" and len(served) == np:
                        try:
                            while c.recv(65536):
                                pass
                        except ConnectionResetError:
                            pass
                        # it went away in time, with all there is
                        if time.time() - t0 < .85:
                            self.got.add(h.hex())
                            self.log(e="obtained", name=h.hex())
                        return
        except (OSError, EOFError, ValueError, KeyError):
            pass
        finally:
            c.close()
            with self.lock:
                self.active -= 1

    # -------------------------------------------------- the crawler

    def start(self, limit=None, perturb=False, **kw):
        def pre():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        self.log(e="start")
        if limit:
            self.log(e="hinder")
        self.node = Node(self.ctx, keep_dir=self.dir, queue=200, preexec=pre if limit else None, perturb=perturb, quiet=bool(limit), **kw)
        self.n = 0

    def kill(self):
        self.node.check_alive("while saving", dict(last=self.ev[-40:]))
        self.log(e="kill")          # what is logged from here on need not have been saved
        self.node.kill()
        end = time.time() + 4
        while self.active and time.time() < end:
            time.sleep(.005)

    def new(self, data):
        h = hashlib.sha1(data).digest()
        self.meta[h] = data
        return h

    def announce(self, h, mode="good"):
        with self.lock:
            self.todo.setdefault(h, []).append(mode)
        if mode == "good":
            self.log(e="begun", name=h.hex())
        self.n += 1
        b = benc(dict(t=b"%d" % self.n, y="q", q="announce_peer", a=dict(id="I" * 20, info_hash=h, port=self.port, token="t")))
        self.node.boot.sendto(b, self.node.addr)

    def wait(self, conns, quiet=.05):
        """until that many connections have been made and have ended"""
        end = time.time() + 15
        while (self.conns < conns or self.active) and time.time() < end and self.node.alive():
            time.sleep(.003)
        time.sleep(quiet)

    def settled(self, expect=True):
        end = time.time() + 5
        while expect and time.time() < end and not all(self.whole(n + ".torrent") for n in self.got):
            time.sleep(.01)
        self.got.clear()
        time.sleep(.1)
        self.todo.clear()
        fs = [[x[:40].lower(), bool(self.whole(x))] for x in (os.listdir(self.t) if os.path.isdir(self.t) else [])
              if re.fullmatch(r"[0-9a-fA-F]{40}\.torrent", x)]
        self.log(e="settled", files=sorted(fs))

    def damage(self, h, b):
        """Somebody else put this there."""
        self.log(e="damaged", name=h.hex())
        os.makedirs(self.t, exist_ok=True)
        with open(os.path.join(self.dir, "damaged"), "wb") as f:
            f.write(b)
        os.rename(f.name, os.path.join(self.t, h.hex() + ".torrent"))

    def remove(self):
        self.log(e="removed")
        if os.path.isdir(self.t):
            shutil.rmtree(self.t)
        self.got.clear()

    def close(self):
        self.node.check_alive("at the end", dict(last=self.ev[-40:]))
        self.node.race_check({})
        self.node.kill()
        self.stop = True
        self.s.close()
        self.w.join()
        os.close(self.fd)
        return dict(cfg={}, ev=self.ev)


def data(rng, big=200000):
    n = rng.choice([1, 2, 100, P - 1, P, P + 1, 2 * P, 3 * P - 1, rng.randrange(1, big), rng.randrange(1, big)])
    return rng.choice([rng.randbytes(n), b"d4:name" + bytes(n), b"\xff" * n + rng.randbytes(4)])


SAVE = "SPECIFICATION Spec\nCONSTANTS Savers = {%s} N = %d Fetches = %d Design = \"%s\"\nINVARIANTS Whole Left\nCHECK_DEADLOCK FALSE\n"


def C07(ctx):
    ctx.model_check("Save", SAVE % (ctx.pick("p1,p2", "p1,p2,p3"), ctx.pick(3, 2), ctx.pick(4, 4), "own"),
                    must_cover=("Open", "Write", "Rename", "Crash", "Restart"))
    for d in ("shared", "direct", "early", "blind"):
        ctx.refute("Save", SAVE % ("p1,p2", 2, 3, d), "Whole")
    rng = random.Random(ctx.seed * 107 + 7)
    traces = []

    def fetches(w, jobs):
        c = w.conns
        for h, mode in jobs:
            w.announce(h, mode)
        w.wait(c + len(jobs))

    bad = ["corrupt", "cut", "short", "hang"]
    # histories of good and bad fetches, of the same and of different info-hashes, alone and together
    for k in range(ctx.pick(4, 30)):
        w = World(ctx, "hist%d" % k)
        if k % 2 == 0:
            os.makedirs(w.t)
            w._watch()
        w.start(pool=2, fetch_pool=rng.choice([1, 4, 8]), perturb=k % 3 != 0, race=k % 4 == 1, env=dict(VERIF_YIELD="sleep") if k % 3 == 1 else None)
        hs = [w.new(data(rng)) for _ in range(ctx.pick(6, 10))]
        for r in range(ctx.pick(7, 15)):
            z = rng.random()
            if z < .35:                         # one info-hash, many at once
                h = rng.choice(hs)
                jobs = [(h, "good")] * rng.choice([2, 4, 8])
            elif z < .6:
                jobs = [(rng.choice(hs), rng.choice(["good", "good", rng.choice(bad[:3])])) for _ in range(rng.choice([1, 3, 8]))]
            elif z < .85:                       # failures on what is there, and on what is not
                jobs = [(rng.choice(hs), rng.choice(bad)) for _ in range(rng.choice([1, 3]))]
                if rng.random() < .6:           # over a file that was damaged
                    h = rng.choice(hs)
                    m = w.meta[h]
                    w.damage(h, rng.choice([b"", m[:-1], m + b"x", bytes([m[0] ^ 1]) + m[1:], m[:len(m) // 2] + bytes(len(m) - len(m) // 2 - 1) + b"z"]))
                    jobs += [(h, rng.choice(["good", "good", "good", "cut"]))]
            else:
                w.remove()
                jobs = [(rng.choice(hs), "good")]
            fetches(w, jobs)
            w.settled()
        traces.append(w.close())
    # writes that fail part-way, beginning with files that are there
    for k in range(ctx.pick(2, 12)):
        w = World(ctx, "full%d" % k)
        hs = [w.new(rng.randbytes(n)) for n in (40000, 70000, 1000, 30001, 8000)]
        w.start(fetch_pool=4)
        fetches(w, [(hs[0], "good"), (hs[2], "good")])
        w.settled()
        w.kill()
        lim = rng.choice([30000, 16384, 20001, 4096 * 5])
        w.start(limit=lim, fetch_pool=rng.choice([1, 4]))
        for _ in range(ctx.pick(2, 4)):
            fetches(w, [(h, "good") for h in rng.sample(hs, len(hs))])
            w.settled(False)
        w.kill()
        w.log(e="unhinder")
        w.start(fetch_pool=4)
        fetches(w, [(h, "good") for h in hs])
        w.settled()
        traces.append(w.close())
    # the torrent directory cannot be made
    w = World(ctx, "nodir")
    h = w.new(data(rng))
    open(w.t, "w").close()
    w.log(e="hinder")
    w.start(fetch_pool=2)
    fetches(w, [(h, "good")] * 2)
    w.settled(False)
    os.unlink(w.t)
    w.log(e="unhinder")
    fetches(w, [(h, "good")])
    w.settled()
    traces.append(w.close())
    # killed at any point, and started again
    for k in range(ctx.pick(2, 12)):
        w = World(ctx, "kill%d" % k)
        hs = [w.new(rng.randbytes(rng.choice([100, 50000, 400000]))) for _ in range(6)]
        for r in range(ctx.pick(10, 30)):
            slow = rng.random() < .5
            w.start(pool=2, fetch_pool=6, perturb=slow, env=dict(VERIF_YIELD="sleep") if slow else None)
            c = w.conns
            for h in rng.sample(hs, rng.choice([1, 3, 6])):
                for _ in range(rng.choice([1, 2])):
                    w.announce(h)
            if r % 4 == 3:
                w.wait(c + 1)
            else:
                end = time.time() + 2
                while w.conns == c and time.time() < end:
                    time.sleep(.0005)
                time.sleep(rng.random() ** 2 * .06)
            if r % 4 == 3:
                w.settled()
            w.kill()
            w.settled(False)
        w.start(fetch_pool=4)
        fetches(w, [(h, "good") for h in hs])
        w.settled()
        traces.append(w.close())
    rej = ctx.validate("Save_Trace", traces, focus="C07")
    for i, n in rej[:1]:
        ev = traces[i]["ev"]
        ctx.violation("saved files: after %d explained events no behaviour of the specification gives %r" % (n, ev[n]),
                      dict(kind="trace", failed_at=n, before=ev[max(0, n - 60):n + 1]))
    ctx.sample(traces[0]["ev"][:20])
    ctx.assumptions += ["a write to a file under its final name shows as an inotify event", "the kernel's rename is atomic"]
