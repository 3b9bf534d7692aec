"""Runs the crawler binary in a scratch directory and talks to it."""
import json
import os
import re
import signal
import socket
import subprocess
import time

import lib


def benc(x):
    if isinstance(x, bool):
        raise TypeError
    if isinstance(x, int):
        return b"i%de" % x
    if isinstance(x, str):
        x = x.encode("latin-1")
    if isinstance(x, bytes):
        return b"%d:%s" % (len(x), x)
    if isinstance(x, (list, tuple)):
        return b"l" + b"".join(benc(y) for y in x) + b"e"
    if isinstance(x, dict):
        return b"d" + b"".join(benc(k) + benc(v) for k, v in sorted((k.encode("latin-1") if isinstance(k, str) else k, v) for k, v in x.items())) + b"e"
    raise TypeError(type(x))


def bdec(b, i=0):
    """(value, next); ints, bytes, lists, dicts with bytes keys. Raises ValueError."""
    def rec(i, depth):
        if i >= len(b) or depth > 500:
            raise ValueError("end")
        c = b[i:i + 1]
        if c == b"i":
            e = b.index(b"e", i)
            s = b[i + 1:e]
            if not re.fullmatch(rb"-?(0|[1-9]\d*)", s) or s == b"-0":
                raise ValueError("int")
            return int(s), e + 1
        if c == b"l":
            r, i = [], i + 1
            while b[i:i + 1] != b"e":
                v, i = rec(i, depth + 1)
                r.append(v)
            return r, i + 1
        if c == b"d":
            r, i = {}, i + 1
            while b[i:i + 1] != b"e":
                k, i = rec(i, depth + 1)
                if not isinstance(k, bytes):
                    raise ValueError("key")
                v, i = rec(i, depth + 1)
                r[k] = v
            return r, i + 1
        if c.isdigit():
            j = b.index(b":", i)
            if not b[i:j].isdigit():
                raise ValueError("len")
            n = int(b[i:j])
            if j + 1 + n > len(b):
                raise ValueError("short")
            return b[j + 1:j + 1 + n], j + 1 + n
        raise ValueError("value")
    return rec(i, 0)


class Node:
    """A running crawler. boot: socket the crawler's first find_node goes to."""

    def __init__(self, ctx, name="node", pool=1, fetch_pool=1, queue=10, race=False, env=None, keep_dir=None, preexec=None,
                 port=0, perturb=False, boots=(), quiet=False, exe=None, level="Info"):
        self.ctx = ctx
        self.dir = keep_dir or ctx.mkdir(name + "-%d" % time.time_ns())
        self.boot = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.boot.bind(("127.0.0.1", 0))
        os.makedirs(os.path.join(self.dir, "conf"), exist_ok=True)
        with open(os.path.join(self.dir, "conf", "config.json"), "w") as f:
            json.dump(dict(dht=dict(Port=port, WorkPoolSize=pool, BootstrapNodes=["127.0.0.1:%d" % self.boot.getsockname()[1], *boots]),
                           fetchTorrent=dict(InfoHashQueueSize=queue, WorkPoolSize=fetch_pool), pprof=dict(NeedRun=False),
                           logger=dict(Level=level)), f)
        self.log = os.path.join(self.dir, "out.log")
        e = dict(os.environ)
        e.update(env or {})
        with open(os.devnull if quiet else self.log, "wb") as f:
            self.p = subprocess.Popen([exe or ctx.build_crawler(race=race, perturb=perturb)], cwd=self.dir, stdout=f, stderr=subprocess.STDOUT,
                                      start_new_session=True, env=e, preexec_fn=preexec)
        self.boot.settimeout(20)
        try:
            self.first, a = self.boot.recvfrom(65536)
        except socket.timeout:
            rc = self.p.poll()
            out = self.output()
            self.kill()
            if rc is None:
                raise lib.CheckError("the crawler sent no bootstrap query: " + out[-1500:])
            ctx.crash_check(rc, out)
            raise lib.CheckError("the crawler did not start (rc %s): %s" % (rc, out[-1500:]))
        self.addr = ("127.0.0.1", a[1])

    def output(self):
        if not os.path.exists(self.log):
            return ""
        with open(self.log, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def alive(self):
        return self.p.poll() is None

    def check_alive(self, what, replay):
        """The crawler may not have stopped."""
        rc = self.p.poll()
        if rc is None:
            return
        out = self.output()
        m = re.search(r"^(panic: |fatal error: |runtime: |unexpected fault).*", out, re.S | re.M)
        self.ctx.violation("%s: the crawler process ended with %s: %s" % (what, rc, m.group(0).split("\n")[0] if m else "?"),
                           dict(kind="crash", rc=rc, output=(m.group(0) if m else out[-4000:])[:6000], **replay))

    def race_check(self, replay):
        m = re.search(r"WARNING: DATA RACE.*?\n==================", self.output(), re.S)
        if m and "GalaIO/P2Pcrawler" in m.group(0):
            self.ctx.violation("data race in the code under test", dict(kind="data-race", report=m.group(0)[:6000], **replay))

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.boot.close()

    def stop(self, sig=signal.SIGTERM, timeout=25):
        """Exit code, or None if it had to be killed."""
        if self.p.poll() is None:
            self.p.send_signal(sig)
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
            os.killpg(self.p.pid, signal.SIGKILL)
            self.p.wait()
        self.boot.close()
        return rc
