"""C19, C03, C24: the RPC server."""
import json
import os
import random

import lib
from bencode import js, rval
from misc import report


def conf(ctx, workers):
    d = ctx.conf_dir("cwd%d" % workers)
    p = os.path.join(d, "conf", "config.json")
    with open(p) as f:
        c = json.load(f)
    c["dht"]["WorkPoolSize"] = workers
    with open(p, "w") as f:
        json.dump(c, f)
    return d


def C19(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS MaxN = %d MaxLen = %d\n%s\nCHECK_DEADLOCK FALSE\n"
    acts = ("DoEnter", "DoPass", "DoWrite", "DoBack", "DoLeave")
    inv = "INVARIANTS Once Order Onion Reverse LastWins\nPROPERTY Ends"
    ctx.model_check("Middleware", cfg % (3, 2, inv), must_cover=acts)
    ctx.model_check("Middleware", cfg % (ctx.pick(2, 3), 3, inv))
    if ctx.thorough:
        ctx.model_check("Middleware", cfg % (4, 2, inv))
    chains = ctx.generate("Middleware", cfg % (3, 2, "CONSTRAINT PrintBeh"))
    chains += ctx.generate("Middleware", cfg % (2, 3, "CONSTRAINT PrintBeh"))
    rng = random.Random(ctx.seed * 67 + 19)
    rng.shuffle(chains)
    chains = chains[:ctx.pick(160, 100000)]
    for j in range(ctx.pick(30, 300)):
        chains.append([[rng.choice("NNW") for _ in range(rng.randrange(5))] for _ in range(rng.choice([4, 5, 8, 17]))])
    for n in ctx.pick([40, 130, 300], [33, 64, 127, 128, 129, 255, 256, 257, 1000]):
        chains.append([["N"] if rng.random() < .5 else [] for _ in range(n - 2)] + [["W"], ["N", "W"]])
    sc = []
    for ps in chains:
        ps = [["E" if o == "W" and rng.random() < .3 else o for o in p] for p in ps]
        if not any("W" in p or "E" in p for p in ps):
            ps[-1].append("W")      # what is sent when nothing is ever written is not specified
        sc.append(dict(kind="mw", progs=ps, side=rng.choice(["req", "resp"]), rounds=2, batch=rng.choice([1, 2, 99])))
    traces = ctx.drive(ctx.go_build("cmd/krpcdrv"), sc, cwd=conf(ctx, 1))
    conc = [dict(s, clients=rng.choice([3, 6]), rounds=ctx.pick(4, 8), slow=True) for s in rng.sample(sc, ctx.pick(40, 200))]
    off = len(sc)
    more = ctx.drive(ctx.go_build("cmd/krpcdrv", perturb=True), conc, cwd=conf(ctx, 8))
    more += ctx.drive(ctx.go_build("cmd/krpcdrv", race=True, perturb=True), conc[:ctx.pick(15, 60)], cwd=conf(ctx, 8))
    for t in more:
        t["cfg"]["scenario"] += off
    ctx.sample(dict(chain=sc[0], observed=traces[0]["ev"]))
    ctx.sample(dict(chain=conc[0], observed=more[0]["ev"][:12]))
    report(ctx, "Middleware_Trace", traces + more, sc + conc, "C19", "handler chain")
    ctx.assumptions += ["middleware and handlers do not panic", "some function of the chain writes a reply"]


KRPC = "SPECIFICATION Spec\nCONSTANTS Queries = {%s} Copies = %d Workers = {%s} Atomic = %s EntryFirst = %s\n" \
       "INVARIANTS AtMostOnce NoneLost OnlySent Honest\n%s\nCHECK_DEADLOCK FALSE\n"


def C03(ctx):
    ctx.model_check("Krpc", KRPC % ("q1,q2", ctx.pick(2, 3), "w1,w2", "TRUE", "TRUE", "PROPERTY Delivered"),
                    must_cover=("Enter", "Send", "Answer", "Match", "Handle"))
    for a, e, inv in (("FALSE", "TRUE", "AtMostOnce"), ("TRUE", "FALSE", "NoneLost")):
        ctx.refute("Krpc", KRPC % ("q1", 2, "w1,w2", a, e, ""), inv)
    rng = random.Random(ctx.seed * 71 + 3)
    pool = [[], [0], [97], [97, 97], [65], [97, 65], [255, 254], [48, 48, 48, 49], [48, 48, 48, 49, 48], [195, 169], [101], [32], [0, 0],
            [100, 49], [120] * 40]
    sc = []
    for j in range(ctx.pick(150, 1500)):
        txs = rng.sample(pool, rng.choice([1, 2, 3, 6]))
        ops, q, out = [], 0, set()
        for i in range(rng.choice([6, 15, 30])):
            t = rng.choice(txs)
            if rng.random() < .45:
                if tuple(t) in out:
                    continue            # two outstanding queries with one id are not specified
                q += 1
                if rng.random() < .2:
                    ops.append(dict(op="fail", q=q, tx=t, n=rng.randrange(3)))
                    continue
                out.add(tuple(t))
                ops.append(dict(op="query", q=q, tx=t))
            else:
                k = rng.choice(["r"] * 6 + ["e", "ebody", "unknown", "noy", "notx", "inttx"])
                if k in ("e", "ebody") and tuple(t) in out:
                    # an error message answers its query: what comes after it is not specified
                    continue
                if k == "r":
                    out.discard(tuple(t))
                ops.append(dict(op="answer", tx=t, kind=k, n=rng.choice([1, 1, 1, 2, 3])))
        sc.append(dict(kind="resp", ops=ops))
    traces = ctx.drive(ctx.go_build("cmd/krpcdrv"), sc, cwd=conf(ctx, 1))
    conc = []
    for j in range(ctx.pick(40, 300)):
        conc.append(dict(kind="resp", conc=rng.choice([1, 2, 4, 8]), rounds=rng.choice([1, 5, 10]), echo=rng.choice([0, 1, 1, 2, 3, 4])))
    more = ctx.drive(ctx.go_build("cmd/krpcdrv", perturb=True), conc, cwd=conf(ctx, 8), env=dict(VERIF_YIELD="sleep"))
    more += ctx.drive(ctx.go_build("cmd/krpcdrv", race=True, perturb=True), conc, cwd=conf(ctx, 8))
    more += ctx.drive(ctx.go_build("cmd/krpcdrv"), conc, cwd=conf(ctx, 8))
    for t in more:
        t["cfg"]["scenario"] += len(sc)
    ctx.sample(traces[0]["ev"][:12])
    ctx.sample(more[0]["ev"][:12])
    report(ctx, "Krpc_Trace", traces + more, sc + conc, "C03", "responses")
    ctx.assumptions += ["two outstanding queries never share a transaction id",
                        "a response that follows an error message for the same query is not specified"]


def C24(ctx):
    ctx.model_check("Krpc", KRPC % ("q1,q2,q3", 1, "w1", "TRUE", "TRUE", ""), must_cover=("Refuse", "Send"))
    rng = random.Random(ctx.seed * 73 + 24)

    def s(x):
        return list(x.encode("latin-1")) if isinstance(x, str) else list(x)

    def rb(n):
        return [rng.randrange(256) for _ in range(n)]

    def sv(b):
        return dict(t="s", v=b)

    def dct(**kw):
        return dict(t="d", v=[dict(k=s(k), v=v) for k, v in kw.items()])

    def iv(n):
        return dict(t="i", v=s(str(n)))

    bad = ["nil", "float", "int64", "uint8", "bool", "bytes", "myint", "mystr", "map", "strs", "ptr", "struct", "func"]
    sc = []
    for j in range(ctx.pick(120, 1200)):
        ops = []
        for i in range(6):
            tx = rng.choice([[], s("aa"), rb(2), rb(4), s("0001"), rb(20)])
            to = rng.choice(["p0", "p1", "p2", "p0", "p1", "p2", "v6", "port0", "nil"])
            if rng.random() < .4:
                n = rng.choice([20, 20, 20, 0, 1, 19, 21, 40])
                a = dct(id=sv(rb(n)), target=sv(rb(n)), info_hash=sv(rb(n)), token=sv(rb(rng.choice([0, 2, 8, 20, 21, 40, 300])) if rng.random() < .8 else s(rng.choice([" tok ", "\0\0", "TOKEN", "0", "i1e"]))),
                        port=iv(rng.choice([0, 1, 1023, 6881, 32767, 32768, 49152, 65535, -1])))
                via = rng.choice(["ping", "find_node", "get_peers", "announce_peer"])
                ops.append(dict(op="send", tx=tx, type=via, args=a, to=to, via=via))
                continue
            v = js(rval(rng, 3))
            while v["t"] != "d":
                v = dict(t="d", v=[dict(k=rb(rng.randrange(5)), v=v)])
            if rng.random() < .3:
                w = dict(t="x", v=rng.choice(bad))
                for _ in range(rng.randrange(3)):
                    w = rng.choice([dict(t="l", v=[iv(1), w]), dct(k=w, a=iv(1))])
                v["v"] = v["v"] + [dict(k=s("zzbad"), v=w)]
            ops.append(dict(op="send", tx=tx, type=rng.choice(["ping", "find_node", "get_peers", "announce_peer", "vote", ""]),
                            args=v, to=to, via=""))
        if rng.random() < .4:       # at once, no two alike
            for k in rng.sample(range(len(ops)), rng.choice([3, 6])):
                ops[k]["burst"] = 1
                ops[k]["tx"] = [k] + ops[k]["tx"]
        for _ in range(4):
            ns = [dict(id=rb(20), ip=rng.choice([rb(4), [127, 0, 0, 1], [0, 0, 0, 0], [255] * 4, [10, 0, 13, 10]]), long=rng.random() < .5,
                       port=rng.choice([0, 1, 255, 256, 6881, 32767, 32768, 65535, rng.randrange(65536)])) for _ in range(rng.choice([0, 1, 2, 8, 20]))]
            ops.insert(rng.randrange(len(ops)), dict(
                op="reply", tx=rng.choice([[], s("aa"), rb(2), rb(4), rb(20)]), type=rng.choice(["ping", "find_node", "get_peers", "announce_peer"]),
                via=rng.choice(["ping", "find_node", "find_node", "values", "values", "nodes", "nodes", "announce_peer", "error", "param"]),
                id=rb(20), token=rng.choice([[], rb(2), rb(8), s("aoeusnth"), rb(20)]), msg=rng.choice([[], s("A Generic Error Ocurred"), rb(5), s("x" * 200)]),
                code=rng.choice([201, 202, 203, 204, 0, 7, 100000]), nodes=ns))
        for o in ops:
            if o.get("via") == "param":     # what is said without a text is not specified
                o["msg"] = o["msg"] or s("no")
        if rng.random() < .3:
            ops.insert(max([0] + [k + 1 for k, o in enumerate(ops) if o["op"] == "reply"]), dict(op="close"))
        sc.append(dict(kind="send", ops=ops))
    # too large for a datagram
    sc.append(dict(kind="send", big=True, ops=[dict(op="send", tx=s("aa"), type="ping", args=dct(id=sv([65] * 66000)), to="p0", via="")]))
    # the largest that fits, and sizes around what the crawler itself can receive
    for n in ctx.pick([900, 1024, 1500, 9000], [900, 1000, 1024, 1025, 1500, 9000, 40000, 65400]):
        sc.append(dict(kind="send", ops=[dict(op="send", tx=s("aa"), type="ping", args=dct(id=sv(rb(n))), to="p0", via="")]))
    traces = ctx.drive(ctx.go_build("cmd/krpcdrv"), sc)
    few = [x for x in sc if any("burst" in o for o in x["ops"])][:ctx.pick(20, 200)]
    more = ctx.drive(ctx.go_build("cmd/krpcdrv", race=True, perturb=True), few)
    for t in more:
        t["cfg"]["scenario"] += len(sc)
    sc, traces = sc + few, traces + more
    for t in traces:
        t["cfg"]["big"] = bool(sc[t["cfg"]["scenario"]].get("big"))
        if t["cfg"]["big"]:
            for e in t["ev"]:
                if "args" in e:
                    e["args"] = dict(t="d", v=[])
    ctx.sample(traces[0]["ev"][:6])
    report(ctx, "Krpc_Trace", traces, sc, "C24", "outgoing queries")
