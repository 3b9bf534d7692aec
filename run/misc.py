"""C04, C17, C18: transaction ids, buffer pool, shared map."""
import random

import lib


def report(ctx, module, traces, scenarios, focus, what):
    rej = ctx.validate(module, traces, focus=focus)
    for i, n in rej[:1]:
        ev = traces[i]["ev"]
        sc = traces[i]["cfg"].get("scenario")
        ctx.violation("%s: after %d explained events no behaviour of the specification gives %r" % (
            what, n, ev[n] if n < len(ev) else None),
            dict(kind="trace", history=ev[:400], failed_at=n, scenario=scenarios[sc] if sc is not None else None))


def drive_both(ctx, pkg, scenarios, race_share=4):
    """Runs the scenarios with the perturbed build, and some with the perturbed race-detector build."""
    tr = ctx.drive(ctx.go_build(pkg, perturb=True), scenarios, timeout=600, env=dict(VERIF_YIELD="sleep"))
    few = [dict(s, rounds=max(4, s.get("rounds", 1) // race_share)) for s in scenarios]
    tr += ctx.drive(ctx.go_build(pkg, race=True, perturb=True), few, timeout=600)
    return tr


# ------------------------------------------------------------------ C18

def C18(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} Keys = {%s} Vals = {1,2} OpsPer = %d Broken = \"%s\"\n" \
          "INVARIANTS MutualExclusion Linearizable\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("SyncMap", cfg % (ctx.pick("p1,p2", "p1,p2,p3"), "k1,k2", ctx.pick(2, 1), "none"),
                    must_cover=("Begin", "Enter", "Read", "Write", "Exit"))
    # the model tells a missing lock: the design without it must fail
    ctx.refute("SyncMap", cfg % ("p1,p2", "k1", 2, "put"), "Linearizable")
    rng = random.Random(ctx.seed * 41 + 18)
    keys = ["", "a", "A", "aa", "\u00e9", "a\u0000", "0001", "00010"]

    def op(ks, n):
        r = rng.random()
        k = rng.choice(ks)
        if r < .4:
            return dict(op="put", key=k, v=n)
        if r < .65:
            return dict(op="get", key=k)
        return dict(op="del" if r < .82 else "take", key=k)

    sc = []
    for j in range(ctx.pick(40, 400)):       # one goroutine
        ks = rng.sample(keys, rng.choice([1, 2, 5]))
        sc.append(dict(kind="map", seq=[op(ks, n + 1) for n in range(60)]))
    for j in range(ctx.pick(3, 20)):         # many keys at once
        ks = ["%04x" % x for x in rng.sample(range(65536), 100)] + keys + ["x" * n for n in range(2, 30)]
        rng.shuffle(ks)
        seq = [dict(op="put", key=k, v=i + 1) for i, k in enumerate(ks)]
        seq += [dict(op="get", key=k) for k in rng.sample(ks, 60)] + [op(ks, 1000 + i) for i in range(150)]
        sc.append(dict(kind="map", seq=seq + [dict(op="get", key=k) for k in ks]))
    for j in range(ctx.pick(40, 400)):
        ks = rng.sample(keys, rng.choice([1, 1, 2, 3]))
        g = rng.choice([2, 2, 3, 4])
        n = rng.choice([1, 2, 3, 5])
        sc.append(dict(kind="map", seq=[op(ks, 900 + i) for i in range(rng.randrange(3))],
                       progs=[[op(ks, 100 * p + i + 1) for i in range(n)] for p in range(g)],
                       after=[dict(op="get", key=k) for k in ks], rounds=ctx.pick(30, 60)))
    for j in range(ctx.pick(6, 40)):         # long histories
        ks = rng.sample(keys, 3)
        sc.append(dict(kind="map", progs=[[op(ks, 1000 * p + i + 1) for i in range(60)] for p in range(4)],
                       after=[dict(op="get", key=k) for k in ks], rounds=3))
    traces = drive_both(ctx, "cmd/miscdrv", sc)
    ctx.sample(traces[0]["ev"][:12])
    ctx.sample(traces[-1]["ev"][:12])
    report(ctx, "SyncMap_Trace", traces, sc, "C18", "shared map")


# ------------------------------------------------------------------ C17

def C17(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Widths = {%s} Max = %d MaxOps = %d\nVIEW %s\nCHECK_DEADLOCK FALSE\n%s\n"
    invs = "INVARIANTS Bounded RightWidth NotShared"
    ctx.model_check("BytesPool", cfg % ("3,8", 2, ctx.pick(9, 12), "View", invs), must_cover=("Get", "Next"))
    behs = []
    for ws, mx, n in ctx.pick([("3,8", 1, 7), ("8", 2, 9), ("8", 0, 5)], [("3,8", 1, 9), ("8", 2, 12), ("3,8,9", 2, 8), ("8", 0, 6)]):
        for b in ctx.generate("BytesPool", cfg % (ws, mx, n, "GenView", "CONSTRAINT PrintBeh")):
            behs.append((mx, b))
    rng = random.Random(ctx.seed * 43 + 17)
    real = {3: [1, 3, 4, 17], 8: [8, 16, 1024], 9: [9, 12, 1023]}
    sc = []
    for mx, b in behs:
        m = {w: rng.choice(real[w]) for w in real}
        d = rng.choice(list(m.values()))
        held, seq = [], []
        for o in b:
            if o[0] == "get":
                seq.append(dict(op="get", w=m[o[1]], n=rng.choice([0, 0, 1])))
            else:
                seq.append(dict(op="put", h=o[1] - 1, n=rng.choice([0, 0, 0, 1, 2, 5])))
        sc.append(dict(kind="pool", max=mx, w=d, seq=seq))
    def op(ws):
        if rng.random() < .5:
            return dict(op="get", w=rng.choice(ws), n=rng.choice([0, 0, 1]))
        return dict(op="put", h=rng.randrange(8), n=rng.choice([0, 0, 0, 1, 2, 9]))
    for j in range(ctx.pick(40, 300)):
        ws = rng.sample([1, 2, 3, 8, 16, 17, 512, 1024, 4096], rng.choice([1, 2, 4]))
        sc.append(dict(kind="pool", max=rng.choice([1, 2, 3, 8]), w=rng.choice(ws), seq=[op(ws) for _ in range(60)]))
    for j in range(ctx.pick(40, 300)):
        ws = rng.sample([1, 2, 3, 8, 16, 1024], rng.choice([1, 1, 2]))
        g = rng.choice([2, 2, 3, 4])
        n = rng.choice([2, 3, 4])
        sc.append(dict(kind="pool", max=rng.choice([1, 2, 3]), w=rng.choice([ws[0], ws[0], 99]),
                       seq=[op(ws) for i in range(rng.randrange(4))],
                       progs=[[op(ws) for i in range(n)] for p in range(g)],
                       after=[dict(op="get", w=w, n=1) for w in ws for _ in range(4)], rounds=ctx.pick(30, 80)))
    for j in range(ctx.pick(10, 60)):        # the first use of a width, by several at once
        g = rng.choice([2, 3])
        w = rng.choice([5, 7, 100])
        sc.append(dict(kind="pool", max=4, w=64,
                       progs=[[dict(op="get", w=w, n=1), dict(op="put", h=0, n=0)] for p in range(g)],
                       after=[dict(op="get", w=w, n=1) for _ in range(4)], rounds=ctx.pick(150, 400)))
    traces = drive_both(ctx, "cmd/miscdrv", sc)
    ctx.sample(traces[0]["ev"][:12])
    ctx.sample(traces[-1]["ev"][:16])
    report(ctx, "BytesPool_Trace", traces, sc, "C17", "buffer pool")
    ctx.assumptions += ["buffers are told apart by the address of their memory; all are kept reachable",
                        "width 0 is not exercised"]


# ------------------------------------------------------------------ C04

def C04(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS M = %d Procs = {%s} Draws = %d Locked = %s\nINVARIANT Window\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("TxId", cfg % (4, ctx.pick("p1,p2", "p1,p2,p3"), ctx.pick(6, 7), "TRUE"),
                    must_cover=("Enter", "Load", "Store", "Exit"))
    ctx.refute("TxId", cfg % (4, "p1,p2", 6, "FALSE"), "Window")
    rng = random.Random(ctx.seed * 47 + 4)
    starts = [0, 1000, 65535, rng.randrange(65536)]
    if ctx.thorough:
        starts += [1, 65534, 32767, 32768, 255, 256, 4095, 4096] + [rng.randrange(65536) for _ in range(8)]
    sc = [dict(init=s, draws=65536 * 2 + 5000) for s in starts]
    conc = []
    for j in range(ctx.pick(4, 20)):
        conc.append(dict(init=rng.choice([0, 65535, 65000, rng.randrange(65536)]), draws=0, conc=[8, 8192]))
    for j in range(ctx.pick(20, 100)):
        conc.append(dict(init=rng.choice([0, 65535, 65500, rng.randrange(65536)]), draws=rng.randrange(50),
                         conc=[rng.choice([2, 3, 8]), 200]))
    for s in rng.sample(range(65536), ctx.pick(100, 2000)) + [0xff, 0x100, 0xfff, 0x7fff, 0x8000, 0xfffe, 0xffff]:
        sc.append(dict(init=s, draws=40))
    traces = ctx.drive(ctx.go_build("cmd/txdrv"), sc + conc)
    traces += ctx.drive(ctx.go_build("cmd/txdrv", perturb=True), conc)
    traces += ctx.drive(ctx.go_build("cmd/txdrv", race=True, perturb=True), [dict(s, conc=[s["conc"][0], 200]) for s in conc])
    ctx.sample(dict(init=traces[0]["cfg"]["init"], first=traces[0]["cfg"]["d"][:10], events=traces[0]["ev"][:3]))
    ctx.sample(dict(init=traces[-1]["cfg"]["init"], conc=traces[-1]["ev"][-1]["d"][:20]))
    rng.shuffle(traces)
    rej = ctx.validate("TxId_Trace", traces, focus="C04")
    for i, n in rej[:1]:
        t = traces[i]
        ctx.violation("transaction ids: a generator started at %d repeats an id within 65,536 draws (event %d)" % (
            t["cfg"]["init"], n), dict(kind="trace", init=t["cfg"]["init"], event=lib.shorten(t["ev"][n], 3000),
                                       draws=t["cfg"]["d"][:200]))
    ctx.assumptions += ["concurrent draws number at most 65,536 per generator, so all of them must differ"]
