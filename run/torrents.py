"""C26: the torrent command."""
import concurrent.futures
import json
import os
import random
import re
import resource
import shutil
import signal
import socket
import struct
import subprocess
import time

import lib
from node import benc
from save import World

LOG = re.compile(rb"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} +(Debug|Info|Warn|Error|Panic|Trace): ")


def word(rng, n=None):
    n = rng.choice([1, 2, 5, 20, 100]) if n is None else n
    a = rng.choice([b"abcxyz", b"ab |", b"\xff\x80\xc3 a", b"%ds!\\\"{}[]", "ü€日本".encode()])
    return bytes(rng.choice(a) for _ in range(n))


def number(rng):
    return rng.choice([0, 1, 16384, 262144, 5 * 10 ** 9, (1 << 63) - 1, -1, -(1 << 63), rng.randrange(1 << 40)])


def info(rng):
    """Metadata: bytes of a dictionary."""
    d = {b"name": word(rng) if rng.random() < .95 else b"", b"piece length": 1 << rng.randrange(14, 24), b"pieces": rng.randbytes(20 * rng.choice([0, 1, 3, 20]))}
    if rng.random() < .6:
        d[b"length"] = number(rng)
    else:
        d[b"files"] = [{b"length": number(rng), b"path": [word(rng), word(rng)]} for _ in range(rng.choice([0, 1, 4]))]
    for k in (b"private", b"source", b"x", b"name.utf-8", b"lengthy", b"nam", b"piece  length", b"Length", b"NAME"):
        if rng.random() < .15:
            d[k] = rng.choice([1, -5, b"x", [], {}, [1, [b"a", {b"name": b"inner", b"length": 3}]], {b"name": b"q", b"length": 77, b"piece length": 78}])
    for k in list(d):
        z = rng.random()
        if z < .06:
            del d[k]
        elif z < .12:
            d[k] = rng.choice([1, -7, b"12", b"", [], [5], {}, {b"name": b"z"}])
    if rng.random() < .2:
        ks = list(d)
        rng.shuffle(ks)
        return b"d" + b"".join(benc(k) + benc(d[k]) for k in ks) + b"e"
    return benc(d)


def bad(rng):
    g = info(rng)
    return rng.choice([b"", g[:-1], g[:rng.randrange(1, len(g))], g + b"x", g + g, b"le", b"i5e", b"4:name", benc([g]), b"l" + g + b"e", rng.randbytes(50), b"\n" + g, b"d",
                       g.replace(b"4:name", b"5:name", 1) if b"4:name" in g else b"di1e1:xe", b"d4:name" + b"9" * 30 + b":xe", b"d6:lengthi1x", b"d" * 3000])


def filename(rng, k):
    base = rng.choice([rng.randbytes(20).hex(), "f%d" % k, ".h%d" % k, "f%d.torrent" % k, "some name %d" % k, "%d.torrent" % k, "%%d %d" % k, "-%d" % k, "ü%d" % k])
    return base + ".torrent"


def other(rng, k):
    return rng.choice(["o%d.torrents", "o%d", "o%d.torrent.tmp123", "%d.tor", ".o%d", "o%dtorrent", "o%d.torrent~", "o%d.txt", "O%d.TORRENT", "o%d.torrent.part", "torrent%d"]) % k


class Dir:
    def __init__(self, ctx, name, t="torrent"):
        self.ctx, self.ev = ctx, []
        self.dir = ctx.conf_dir(name)
        self.t = os.path.join(self.dir, t)
        os.makedirs(self.t)

    def put(self, name, b=None, maybe=False, write=True, how=None):
        """how: the file is not just these bytes, but as good as them for the specification: made by how(path)"""
        p = os.path.join(self.t, name)
        if write:
            if how:
                how(p)
            elif b is None:
                os.makedirs(p)
            else:
                with open(p, "wb") as f:
                    f.write(b)
        self.ev.append(dict(e="put", name=list(name.encode()), kind="dir" if b is None else "file", bytes=list(b or b""), maybe=maybe))

    def run(self, *args, files=None):
        def pre():
            if files:
                resource.setrlimit(resource.RLIMIT_NOFILE, (files, files))
        try:
            p = subprocess.run([self.ctx.build_crawler(), "torrent", *args], cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=60, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            raise lib.CheckError("the torrent command does not end")
        ls = [x[:-1] if x.endswith(b"\r") else x for x in p.stdout.split(b"\n")]
        self.out = (p.stdout[-1500:] + p.stderr[-2500:]).decode("latin-1")
        self.races(p.stderr)
        return p.returncode == 0, [list(x) for x in ls if x and not LOG.match(x)]

    def races(self, err):
        m = re.search(r"WARNING: DATA RACE.*?\n==================", err.decode("utf-8", "replace"), re.S)
        if m and "GalaIO/P2Pcrawler" in m.group(0):
            self.ctx.violation("data race in the code under test", dict(kind="data-race", report=m.group(0)[:6000]))

    def list(self, path="torrent", **kw):
        ok, ls = self.run(path, **kw)
        self.ev.append(dict(e="list", ok=ok, lines=ls))

    def show(self, name, path):
        ok, ls = self.run(path)
        self.ev.append(dict(e="show", name=list(name.encode()), shown=list(path.encode()), ok=ok, lines=ls))

    def trace(self):
        return dict(cfg=dict(x=0), ev=self.ev, out=self.out)


def zeros(n):
    def how(p):
        with open(p, "wb") as f:
            f.truncate(n)
    return how


def large(b, n):
    def how(p):
        with open(p, "wb") as f:
            f.write(b[:-1] + b"6:zzzzzz%d:" % n + bytes(1 << 20) * (n >> 20) + bytes(n & ((1 << 20) - 1)) + b"e")
    return how


TNAMES = ["torrent"] * 6 + ["to[rr]ent", "a b", "%d", "t*", "x.torrent", "ü", "-t", "a/b/c", "t?", "{a,b}", "back\\slash", "$HOME", "[", "~"]


def static(ctx, seed, i):
    rng = random.Random("%s/%d" % (seed, i))
    tname = TNAMES[i % len(TNAMES)] if i % 2 else rng.choice(TNAMES)
    d = Dir(ctx, "d%d" % i, tname)
    many = i % 10 == 3
    spoiled = many and i % 20 == 3      # more bad files than may be open
    names, k = [], 0
    for r in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2, 6, 15]) if not many else 60):
            k += 1
            z = rng.random()
            if z < .6 or many:
                n = filename(rng, k)
                d.put(n, info(rng) if not many or z < (.3 if spoiled else .9) else bad(rng))
                names.append(n)
            elif z < .75:
                n = filename(rng, k)
                d.put(n, bad(rng))
                names.append(n)
            elif z < .88:
                d.put(other(rng, k), info(rng))
            else:
                n = rng.choice([filename, other])(rng, k)
                d.put(n)
                if rng.random() < .5:
                    with open(os.path.join(d.t, n, "in.torrent"), "wb") as f:
                        f.write(info(rng))
        if i % 12 == 5:
            k += 1
            n = filename(rng, k)
            d.put(n, b"", how=zeros(rng.choice([33 << 20, 65 << 20])))      # no dictionary
            b = benc({b"name": b"n%d" % k, b"length": k})
            d.put("L" + n, b, how=large(b, rng.choice([1 << 20, 17 << 20, 33 << 20])))
            names.append(n)
        if rng.random() < .1:
            k += 1
            d.put("link%d.torrent" % k, b"", how=lambda p: os.symlink("nothing-%d" % k, p))
            if names:
                d.put("link%da.torrent" % k, b"", how=lambda p: os.symlink(".", p))
        if rng.random() < .15:      # as good as a file: a link to one elsewhere
            k += 1
            b = info(rng)
            with open(os.path.join(d.dir, "elsewhere%d" % k), "wb") as f:
                f.write(b)
            n = rng.choice(["link%db.torrent", ".%d.torrent", "%dx"]) % k
            d.put(n, b, how=lambda p: rng.choice([os.symlink, os.link])(os.path.join(d.dir, "elsewhere%d" % k), p))
            if n.endswith(".torrent"):
                names.append(n)
        if names and rng.random() < .4:     # another content
            d.put(rng.choice(names), rng.choice([info, info, bad])(rng))
        d.list(rng.choice([tname, tname + "/", "./" + tname, d.t] if tname[0] not in "-~" else ["./" + tname, d.t]), files=24 if many else None)
        if names and rng.random() < .5:
            n = rng.choice(names)
            d.show(n, rng.choice(["./" + tname + "/" + n, os.path.join(d.t, n)]))
    t = d.trace()
    shutil.rmtree(d.dir, ignore_errors=True)
    return t


def running(ctx, rng, k):
    """While the crawler runs, and saves, in the same directory."""
    s = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
    w = World(ctx, "run%d" % k)
    d = Dir.__new__(Dir)
    d.ctx, d.ev, d.dir, d.t, d.out = ctx, [], w.dir, w.t, ""
    for _ in range(50):
        port = random.randrange(20000, 60000)
        s = socket.socket(socket.AF_INET6, socket.SOCK_DGRAM)
        try:
            s.bind(("::", port))
            break
        except OSError:
            continue
        finally:
            s.close()
    w.start(pool=2, fetch_pool=8, port=port)
    os.makedirs(d.t, exist_ok=True)
    d.put("bad.torrent", bad(rng))
    for r in range(ctx.pick(3, 8)):
        new = []
        for _ in range(rng.choice([1, 4, 12])):
            b = info(rng)
            b = b[:-1] + b"6:zzzzzz%d:" % 60000 + rng.randbytes(60000) + b"e" if rng.random() < .1 else b
            h = w.new(b)
            new.append((h.hex() + ".torrent", b))
            d.put(h.hex() + ".torrent", b, maybe=True, write=False)
            w.announce(h)
        for _ in range(3):
            d.list()
        end = time.time() + 5
        while time.time() < end and not all(w.whole(n) for n, _ in new):
            time.sleep(.02)
        for n, b in new:
            if w.whole(n):
                d.put(n, b, write=False)
        d.list()
    rc = subprocess.run([ctx.build_crawler(), "version"], cwd=w.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if rc.returncode != 0 or b"version" not in rc.stdout:
        ctx.violation("the version command fails while a crawler runs in the same directory", dict(kind="version", rc=rc.returncode, output=(rc.stdout + rc.stderr)[-3000:].decode("latin-1")))
    w.close()
    return d.trace()


def C26(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Files = {%s} Saves = %d Broken = \"%s\"\nINVARIANTS Complete Truthful\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("Torrents", cfg % (ctx.pick("a,b,c,d", "a,b,c,d,e"), 2, "none"), must_cover=("Save", "Start", "Show", "End"))
    for b in ("stop", "limit", "slow"):
        ctx.refute("Torrents", cfg % ("a,b,c", 1, b), "Complete")
    rng = random.Random(ctx.seed * 109 + 26)
    ctx.build_crawler()
    with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
        traces = list(ex.map(lambda i: static(ctx, ctx.seed, i), range(ctx.pick(120, 1500))))
    n = len(traces)
    traces += [running(ctx, rng, k) for k in range(ctx.pick(2, 6))]
    rej = ctx.validate("Torrents_Trace", [dict(cfg=t["cfg"], ev=t["ev"]) for t in traces], focus="C26")
    for i, m in rej[:1]:
        def show(e):
            return {k: (bytes(v).decode("latin-1")[:400] if k in ("name", "bytes", "shown") else [bytes(x).decode("latin-1")[:400] for x in v] if k == "lines" else v) for k, v in e.items()}
        ctx.violation("the torrent command%s: %s" % (" while a crawler runs" if i >= n else "", json.dumps(show(traces[i]["ev"][m]))[:700]),
                      dict(kind="trace", before=[show(e) for e in traces[i]["ev"][:m + 1]], output=traces[i]["out"]))
    ctx.sample([dict(e=e["e"], lines=[bytes(x).decode("latin-1") for x in e["lines"]]) for e in traces[0]["ev"] if e["e"] == "list"][:1])
    ctx.assumptions += ["names with line breaks in metadata are not generated", "what is printed for a name that is not a string is not specified"]
