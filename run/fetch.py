"""C08, C09, C10: fetching metadata from scripted peers."""
import random

import lib

CFG = "SPECIFICATION %s\nCONSTANTS N = %d MaxMsgs = %d Clock0 = 2\n%s\nCHECK_DEADLOCK FALSE\n"
P = 16384


def model(ctx):
    inv = "INVARIANTS Sound Succeeds Asked\nPROPERTY Terminates"
    ctx.model_check("Fetch", CFG % ("Spec", 1, ctx.pick(4, 6), inv), must_cover=("Put", "Read", "Eof", "Tick", "Expire"))
    if ctx.thorough:
        ctx.model_check("Fetch", CFG % ("Spec", 2, 5, inv), timeout=900)


def other(rng):
    """a message an honest peer may send at any time after its handshake, and that has no bearing on metadata"""
    r = rng.random()
    if r < .5:
        t, n = rng.choice([(0, 0), (1, 0), (2, 0), (3, 0), (4, 4), (5, rng.choice([1, 7, 200, 5000, 32767])), (6, 12), (7, 9 + 16384),
                           (8, 12), (9, 2), (13, 4), (14, 0), (15, 0), (16, 12), (17, 4), (21, 49), (99, 7), (255, 1)])
        return dict(m="bep3", type=t, n=n)
    if r < .85:
        return dict(m="xo", type=rng.choice([2, 3, 4, 7, 20, 200, 255]), n=rng.choice([0, 1, 30, 500, 16384, 32766]))
    return dict(m="rq", i=rng.randrange(3))


def xh(rng, **kw):
    return dict(m="xh", id=rng.choice([1, 2, 3, 4, 9, 20, 127, 128, 200, 255]), extra=rng.random() < .5, **kw)


def honest(rng, script, size, seg=None):
    """the script of letters as steps of a driver"""
    np = -(-size // P)
    steps, cur, nx = [], [], 0
    seg = seg or rng.choice(["", "one", "all", "all", "bytes", "rand", "rand"])

    def flush():
        if cur:
            steps.append(dict(op="send", msgs=list(cur), seg=seg))
            cur.clear()
    if rng.random() < .5:
        steps.append(dict(op="hello"))
    for m in script:
        if m[0] == "H":
            cur.append(dict(m="hs", extra=rng.random() < .5))
            if rng.random() < .3:
                flush()
        elif m[0] == "k":
            cur.append(dict(m="ka"))
        elif m[0] == "o":
            cur.append(other(rng))
        elif m[0] == "X":
            flush() if rng.random() < .3 else None
            cur.append(xh(rng))
            nx += 1
            flush()
            steps.append(dict(op="await", n=np * nx))
        elif m[0] == "U":
            cur.append(dict(m="xh", id=1, mode="update", extra=True))
        else:
            cur.append(dict(m="pc", i=m[1], extra=rng.random() < .2))
            if rng.random() < .2:
                flush()
    flush()
    return steps


def size_of(rng, n):
    lo, hi = (n - 1) * P + 1, n * P
    return rng.choice([lo, hi, hi - 1, rng.randint(lo, hi), rng.randint(lo, hi)])


def C09(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 83 + 9)
    sc = []
    for n, mx, take in ((1, 6, ctx.pick(60, 800)), (2, 6, ctx.pick(80, 1500)), (3, 6, ctx.pick(20, 200))):
        beh = ctx.generate("Fetch", CFG % ("GenSpec", n, mx, "CONSTRAINT PrintHonest"), workers=4)
        rng.shuffle(beh)
        seen = [b for b in beh if len(b) == n + 2][:3]
        for b in seen + beh[:take]:
            size = size_of(rng, n)
            sc.append(dict(size=size, seed=rng.randrange(1 << 30), steps=honest(rng, b, size), real=rng.random() < .5))
    # any size and number of pieces; any order, with repetitions and other messages in between
    for size in [1, 2, 3, 100, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 16 * P, 16 * P + 1, 17 * P] + \
            [rng.randint(1, 40 * P) for _ in range(ctx.pick(15, 150))] + ctx.pick([1 << 20], [1 << 20, 2 << 20, 4 << 20]):
        np = -(-size // P)
        order = list(range(np))
        how = rng.choice(["asc", "desc", "shuffle", "shuffle", "dup"])
        if how == "desc":
            order.reverse()
        elif how == "shuffle":
            rng.shuffle(order)
        elif how == "dup":
            order += [rng.randrange(np) for _ in range(min(np, 8))]
            rng.shuffle(order)
        script = [["H"], *rng.choice([[], [["o"]], [["o"], ["k"]]]), ["X"]]
        for i in order:
            script.append(["g", i])
            if rng.random() < .15:
                script.append(rng.choice([["k"], ["o"], ["U"]]))
        sc.append(dict(size=size, seed=rng.randrange(1 << 30), steps=honest(rng, script, size, rng.choice(["all", "rand", "one"])),
                       v6=rng.random() < .3))
    rng.shuffle(sc)
    base = len(sc)
    # several at once, of different sizes
    par = []
    small = [s for s in sc if s["size"] <= 4 * P]
    for g in range(ctx.pick(10, 80)):
        for s in rng.sample(small, 8):
            par.append(dict(s, seed=rng.randrange(1 << 30), par=g + 1))
    allsc = sc + par
    traces = ctx.drive(ctx.go_build("cmd/fetchdrv"), allsc, timeout=600)
    inject = ctx.drive(ctx.go_build("cmd/fetchdrv", race=True, perturb=True), par[:ctx.pick(24, 160)], timeout=600)
    for t in inject:
        t["cfg"]["scenario"] += base
    slowest = max((t["ev"][-1]["ms"] for t in traces if t["ev"][-1]["ok"]), default=0)
    ctx.parts["slowest_honest_fetch_ms"] = slowest
    ctx.sample(dict(scenario=sc[0], observed=traces[0]["ev"]))
    traces += inject
    rej = ctx.validate("Fetch_Trace", traces, focus="C09")
    bad = 0
    for i, n in rej:
        ev = traces[i]["ev"]
        r = ev[-1]
        s = allsc[traces[i]["cfg"]["scenario"]]
        if n == len(ev) - 1 and not r["ok"] and r["ms"] >= 900:
            # the whole fetch has one second: a machine that stalls may exceed it.  Once more, alone
            again = ctx.drive(ctx.go_build("cmd/fetchdrv"), [dict(s, par=0)] * 4, timeout=300)
            rr = ctx.validate("Fetch_Trace", again, focus="C09", silent=True)
            if not [k for k, _ in rr if again[k]["cfg"]["stall"] < 150]:
                bad += 1
                ctx.log("inconclusive: slow run of scenario", traces[i]["cfg"])
                if bad > 10:
                    raise lib.CheckError("the machine is too slow for this check")
                continue
        report_one(ctx, "a fetch from a peer that follows the protocol", ev, n, s)
    ctx.assumptions += ["a fetch has one second in all: fetches that take longer than that because of their size or a slow peer are not specified"]


def report_one(ctx, what, ev, n, s):
    ctx.violation("%s: after %d explained events no behaviour of the specification gives %r" % (what, n, ev[n] if n < len(ev) else None),
                  dict(kind="trace", history=ev[:400], failed_at=n, scenario=lib.shorten(s, 20000)))


def hostile_steps(rng, script, size):
    np = -(-size // P)
    steps, cur = [], []
    seg = rng.choice(["", "one", "all", "rand", "bytes"])
    big = ["0", "-1", "-16384", "1", str(size + 1), str(size - 1), str(size + P), str(2 * size), str(33554432), str(33554433),
           "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "1e5", "", "007"]

    def flush():
        if cur:
            steps.append(dict(op="send", msgs=list(cur), seg=seg))
            cur.clear()
    for m in script:
        k = m[0]
        if k == "H":
            cur.append(dict(m="hs"))
        elif k == "h":
            cur.append(dict(m="hs", mode=rng.choice(["proto", "len0", "len255", "len20", "len48", "noext", "short", "hash"])))
        elif k == "k":
            cur.append(dict(m="ka"))
        elif k == "o":
            cur.append(other(rng))
        elif k == "X":
            cur.append(xh(rng))
            if rng.random() < .5:
                flush()
                steps.append(dict(op="await", n=np))
        elif k == "U":
            cur.append(dict(m="xh", id=1, mode="update"))
        elif k == "Y":
            cur.append(xh(rng, mode="size", big=rng.choice([str(size + 1), str(max(1, size - 1)), str(size + P), str(P * np), str(max(1, size - P)),
                                                            str(P), str(33554432), str(2 * size)])))
        elif k == "Z":
            mode = rng.choice(["size"] * 4 + ["nosize", "strsize", "nom", "mlist", "noid", "strid", "trunc", "junk", "deep", "empty", "bare", ""])
            cur.append(dict(m="xh", id=rng.choice([1, 0, -1, 256, 300, 3]), mode=mode, big=rng.choice(big)))
        elif k == "r":
            cur.append(dict(m="rj", i=rng.choice([0, np - 1, np, -1])))
        elif k == "m":
            cur.append(rng.choice([dict(m="claim", n=rng.choice([1, 5, 32768, 32769, 100000, 2**31 - 1, 2**31, 2**32 - 1]), i=rng.choice([0, 1, 3, 100])),
                                   dict(m="raw", hex=rng.choice(["0000000114", "000000021400", "000000021401", "00000001", "000000", "ffffffff14", "0000000100"])),
                                   dict(m="bep3", type=5, n=40000)]))
        elif k == "b":
            cur.append(dict(m="pc", i=m[1], mode=rng.choice(["bad", "bad", "short", "long", "empty", "total", "nopiece", "strpiece", "notype", "type", "junk",
                                                             "empty0", "wrongid", "shift", "shift", "cut"]), type=rng.choice([0, 2, 3, 5, 200])))
        else:
            i = m[1] if m[1] < np else rng.choice([np, np + 1, -1, 10 ** 6, 2 ** 31])
            if rng.random() < .1:
                cur.append(dict(m="pc", i=0, mode="bigpiece", big=rng.choice(big)))
            else:
                cur.append(dict(m="pc", i=i))
        if rng.random() < .3:
            flush()
    flush()
    r = rng.random()
    if r < .6:
        steps.append(dict(op=rng.choice(["close", "rst", "halfclose", "close"])))
    return steps


def hostile(ctx, rng, num, groups):
    """scripts of any messages of the alphabet; those that begin well go further"""
    sc = []
    beh = ctx.generate("Fetch", CFG % ("GenSpec", 2, 7, "CONSTRAINT PrintAll"), num=num, depth=8)
    beh = [b for b in beh if len(b) == 7]
    for j, b in enumerate(beh[:num]):
        if j % 8:
            b = [["H"]] + b[1:]
        if j % 4:
            b = b[:1] + [rng.choice([["X"], ["Y"], ["X"]])] + b[1:]
        size = size_of(rng, rng.choice([1, 2, 2, 2, 3]))
        sc.append(dict(size=size, seed=rng.randrange(1 << 30), steps=hostile_steps(rng, b, size), par=1 + j // groups))
    # nearly right: all pieces, one thing wrong
    for j in range(num // 2):
        n = rng.choice([1, 2, 3, 5])
        size = size_of(rng, n)
        s = [["H"], rng.choice([["X"], ["X"], ["X"], ["Y"]])] + [["g", i] for i in range(n)]
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            k = rng.randrange(2, len(s) + 1)
            if r < .35 and k < len(s):
                s[k] = ["b", s[k][1] if len(s[k]) > 1 else 0]
            elif r < .5:
                s.insert(k, ["b", rng.randrange(n)])
            elif r < .6 and k < len(s):
                del s[k]
            elif r < .8:
                s.insert(k, rng.choice([["X"], ["Y"], ["Y"], ["Z"]]))
            else:
                s.insert(k, rng.choice([["r"], ["m"], ["g", n], ["U"]]))
        sc.append(dict(size=size, seed=rng.randrange(1 << 30), steps=hostile_steps(rng, s, size), par=100000 + j // groups))
    return sc


def C08(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 89 + 8)
    sc = hostile(ctx, rng, ctx.pick(260, 3000), 70)
    # wrong contents and right ones at the same time, of the same and of other metadata
    for g in range(ctx.pick(8, 60)):
        seed = rng.randrange(1 << 30)
        for j in range(10):
            n = rng.choice([1, 2, 3])
            size = size_of(rng, n)
            s = [["H"], ["X"]] + [["g", i] for i in rng.sample(range(n), n)]
            if j % 2:
                s[rng.randrange(2, len(s))] = ["b", rng.randrange(n)]
            sc.append(dict(size=size, seed=rng.choice([seed, rng.randrange(1 << 30)]), par=200000 + g,
                           steps=hostile_steps(rng, s, size) if j % 2 else honest(rng, s, size)))
    traces = ctx.drive(ctx.go_build("cmd/fetchdrv"), sc, timeout=800)
    off = len(sc)
    few = rng.sample([dict(s) for s in sc if s["par"] >= 100000], ctx.pick(60, 300))
    few.sort(key=lambda s: s["par"])
    for j, s in enumerate(few):
        s["par"] = 1 + j // 30
    more = ctx.drive(ctx.go_build("cmd/fetchdrv", race=True, perturb=True), few, timeout=800)
    for t in more:
        t["cfg"]["scenario"] += off
    okays = sum(1 for t in traces if t["ev"][-1]["ok"])
    ctx.parts["fetches"] = dict(succeeded=okays, failed=len(traces) - okays)
    if not okays:
        ctx.log("no fetch succeeded")
    ctx.sample(dict(scenario=lib.shorten(sc[0]), observed=traces[0]["ev"]))
    ctx.sample(dict(scenario=lib.shorten(sc[-1]), observed=traces[-1]["ev"]))
    traces += more
    allsc = sc + few
    for i, n in ctx.validate("Fetch_Trace", traces, focus="C08")[:1]:
        report_one(ctx, "metadata fetch", traces[i]["ev"], n, allsc[traces[i]["cfg"]["scenario"]])


def C10(ctx):
    model(ctx)
    rng = random.Random(ctx.seed * 97 + 10)
    hs, x = dict(m="hs"), lambda **k: dict(dict(m="xh", id=3), **k)

    def send(*m, seg=""):
        return dict(op="send", msgs=list(m), seg=seg)
    stages = [[], [dict(op="hello")], [send(hs)], [send(hs, dict(m="bep3", type=5, n=20))], [send(hs, x()), dict(op="await", n=2)],
              [send(hs, x()), dict(op="await", n=2), send(dict(m="pc", i=0))]]
    endless = [[dict(m="ka")], [dict(m="ka")] * 2000, [dict(m="bep3", type=4, n=4)] * 50, [dict(m="bep3", type=7, n=16393)], [dict(m="xo", type=2, n=30000)],
               [dict(m="pc", i=0)], [dict(m="pc", i=0, mode="bad")], [dict(m="rj", i=0)], [dict(m="xh", id=1, mode="update")], [x()],
               [dict(m="raw", hex="00")], [dict(m="claim", n=32768, i=30)]]
    sc = []
    for st in stages:
        for end in ("silent", "close", "rst", "halfclose"):
            sc.append(dict(size=20000, steps=st + ([] if end == "silent" else [dict(op=end)])))
        for e in endless if ctx.thorough else rng.sample(endless, 5) + endless[:1]:
            sc.append(dict(size=20000, steps=st + [dict(op="endless", msgs=e, us=rng.choice([0, 100, 20000]))]))
        e = rng.choice(endless)
        sc.append(dict(size=20000, steps=st + [dict(op="endless", msgs=e, n=1, us=rng.choice([1000, 50000, 300000]))]))
        sc.append(dict(size=20000, steps=st + [dict(op="endless", msgs=[dict(m="bep3", type=7, n=16393)], n=300, us=100000)]))
    sc.append(dict(size=20000, steps=[dict(op="endless", msgs=[hs], n=1, us=200000)]))
    for k in ("refused", "backlog", "badaddr", "badaddr", "badaddr", "badaddr", "badaddr"):
        sc.append(dict(size=100, kind=k, steps=[]))
    for h in ("00", "00" * 19, "00" * 21, "00" * 64):
        sc.append(dict(size=100, steps=[send(hs, x()), dict(op="close")], hash=h))
    # never reading, while there is more and more to write
    for b in ("33554432", "33554431", "16777216"):
        sc.append(dict(size=20000, noread=True, steps=[send(hs), dict(op="endless", msgs=[x(mode="size", big=b)] * 20)]))
    sc.append(dict(size=20000, noread=True, steps=[]))
    # and whatever else
    sc += hostile(ctx, rng, ctx.pick(60, 1500), 1 << 30)
    for s in sc:
        s.update(seed=rng.randrange(1 << 30), par=1)
    if len(sc) > 300:
        for j, s in enumerate(sc):
            s["par"] = 1 + j // 300
    # claims, one at a time: what does a fetch allocate?
    sizes = ["0", "-1", "-2147483648", "-9223372036854775808", "1048576", "16777216", "33554431", "33554432", "33554433", "67108864", "536870912",
             "1073741824", "2147483647", "2147483648", "4294967295", "4294967296", "68719476736", "1099511627776", "1125899906842624",
             "4611686018427387904", "9223372036854775807", "9223372036854775808", "99999999999999999999"]
    cl = []
    for b in sizes:
        cl.append([send(hs, x(mode="size", big=b))])
    for b in ("16777216", "33554432"):
        cl.append([send(hs, x(mode="size", big=b)), dict(op="await", n=3), send(dict(m="pc", i=0), dict(m="pc", i=1))])
    for n in (32769, 65536, 2**24, 2**28, 2**31 - 1, 2**31, 2**32 - 1):
        cl.append([send(hs, dict(m="claim", n=n, i=10))])
        cl.append([send(hs, x()), dict(op="await", n=2), send(dict(m="claim", n=n, i=10))])
    for b in ("2147483647", "9223372036854775807", "-1"):
        cl.append([send(hs, x()), dict(op="await", n=2), send(dict(m="pc", i=0, mode="bigpiece", big=b))])
        h = ("1401" + ("d8:msg_typei1e5:piecei%se10:total_sizei%see" % (0, b)).encode().hex())
        cl.append([send(hs, x()), dict(op="await", n=2), send(dict(m="raw", hex="%08x" % (len(h) // 2) + h))])
    for t in ("d4:name2147483647:", "d1:m1000000000:a", "d999999999999:"):
        h = "1400" + t.encode().hex()
        cl.append([send(hs, dict(m="raw", hex="%08x" % (len(h) // 2) + h))])
    claims = [dict(size=20000, seed=rng.randrange(1 << 30), claim=True, steps=s + [dict(op="sleep", us=20000), dict(op="close")]) for s in cl]
    allsc = sc + claims
    traces = ctx.drive(ctx.go_build("cmd/fetchdrv"), allsc, timeout=800, env=dict(FETCH_AS="1"))
    ctx.parts["longest_fetch_ms"] = max(t["ev"][-1]["ms"] for t in traces)
    ctx.parts["most_allocated_kb_by_a_claim"] = max(t["ev"][-1]["alloc"] for t in traces)
    ctx.sample(dict(scenario=lib.shorten(sc[0]), observed=traces[0]["ev"]))
    ctx.sample(dict(scenario=lib.shorten(claims[3]), observed=traces[len(sc) + 3]["ev"]))
    for i, n in ctx.validate("Fetch_Trace", traces, focus="C10")[:1]:
        report_one(ctx, "metadata fetch", traces[i]["ev"], n, allsc[traces[i]["cfg"]["scenario"]])
