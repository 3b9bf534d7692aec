"""C22: the UDP endpoint."""
import random

import lib
from misc import report

UDP = "SPECIFICATION Spec\nCONSTANTS Max = %d Cap = %d Bufs = %d Fresh = %s EnvQuiet = %s\n%s\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS IntactInOrder Intact Once Sorted NoneLost\nVIEW View"


def C22(ctx):
    ctx.model_check("Udp", UDP % (ctx.pick(4, 6), 2, ctx.pick(6, 8), "TRUE", "FALSE", INV),
                    must_cover=("Read", "Push", "Arrive", "Take", "Close"))
    ctx.refute("Udp", UDP % (3, 1, 4, "FALSE", "FALSE", INV), "Intact")
    rng = random.Random(ctx.seed * 79 + 22)
    beh = ctx.generate("Udp", UDP % (ctx.pick(3, 4), 2, 6, "TRUE", "TRUE", "CONSTRAINT PrintBeh"), workers=4)
    beh = [b for b in beh if b]
    # the longest say most: a history contains its prefixes
    full = {tuple(b) for b in beh}
    for b in beh:
        full.discard(tuple(b[:-1]))
    beh = [list(b) for b in sorted(full)]
    rng.shuffle(beh)
    sizes = [0, 1, 2, 3, 19, 20, 100, 511, 512, 1000, 1022, 1023, 1024]
    sc = []
    for b in beh[:ctx.pick(120, 3000)]:
        ops, closed, waiting = [], False, 0
        for o in b:
            if o == "in":
                n = rng.choice([1, 1, 3, 10])
                ops.append(dict(op="in", **{"from": rng.randrange(3)}, size=rng.choice(sizes + [64] * 6), n=n))
                waiting += 0 if closed else n
            elif o == "take":
                if waiting and not closed:
                    ops.append(dict(op="take", n=1))
                    waiting -= 1
                elif closed:
                    ops.append(dict(op="drain"))
            elif o == "release":
                ops.append(dict(op="held"))
            else:
                ops.append(dict(op="close", n=rng.choice([1, 1, 2, 4])))
                closed = True
                if rng.random() < .5:
                    ops.append(dict(op="out", to="p1", size=5))
                if rng.random() < .5:
                    ops.append(dict(op="rebind"))
        ops.append(dict(op="drain"))
        sc.append(dict(kind="serial", ops=ops))
    for n in sorted({*sizes, *[rng.randrange(1025) for _ in range(ctx.pick(20, 300))]}):
        sc.append(dict(kind="serial", ops=[dict(op="in", **{"from": 0}, size=n), dict(op="in", **{"from": 1}, size=1),
                                           dict(op="in", **{"from": 0}, size=max(0, n - 1)), dict(op="drain"),
                                           dict(op="in", **{"from": 2}, size=1024, n=3), dict(op="drain"), dict(op="held")]))
    for n in (1025, 1500, 9000, 65507):     # what is larger may be lost, the others may not
        sc.append(dict(kind="serial", ops=[dict(op="in", **{"from": 0}, size=30), dict(op="in", **{"from": 0}, size=n),
                                           dict(op="in", **{"from": 0}, size=31), dict(op="drain")]))
    for n, size in ((120, 1024), (101, 40), (160, 40), (100, 512)):     # more than the channel holds, before the first is taken
        sc.append(dict(kind="serial", ops=[dict(op="in", **{"from": 0}, size=size, n=n // 2),
                                           dict(op="in", **{"from": 1}, size=size, n=n - n // 2), dict(op="take", n=3),
                                           dict(op="held"), dict(op="in", **{"from": 2}, size=size), dict(op="drain"), dict(op="held")]))
    tos = ["p0", "p1", "p2"] * 3 + ["v6", "port0", "noport", "bigport", "colons"]
    for j in range(ctx.pick(20, 200)):
        ops = []
        for i in range(10):
            ops.append(dict(op="out", to=rng.choice(tos), size=rng.choice(sizes + [1025, 1472, 1500, 9000, 65507, 65508, 70000]),
                            host=rng.random() < .5))
            if rng.random() < .3:
                ops.append(dict(op="in", **{"from": rng.randrange(3)}, size=rng.choice(sizes)))
        sc.append(dict(kind="serial", ops=ops + [dict(op="drain")]))
    traces = ctx.drive(ctx.go_build("cmd/udpdrv"), sc)
    conc = []
    for j in range(ctx.pick(40, 300)):
        s = dict(kind="conc", senders=rng.choice([1, 2, 3, 6]), each=rng.choice([5, 10, 20]), size=rng.choice([20, 200, 1024]),
                 outs=rng.choice([0, 5, 10]), slow=rng.choice([0, 0, 100]), late=rng.choice([0, 0, 2]),
                 closers=0, close_at=0)
        if rng.random() < .6:
            s.update(closers=rng.choice([1, 2, 4, 8]), close_at=rng.choice([0, 50, 200, 500, 1000]))
        conc.append(s)
    more = ctx.drive(ctx.go_build("cmd/udpdrv", perturb=True), conc, env=dict(VERIF_YIELD="sleep"))
    more += ctx.drive(ctx.go_build("cmd/udpdrv", race=True, perturb=True), conc[:ctx.pick(20, 150)])
    for t in more:
        t["cfg"]["scenario"] += len(sc)
    ctx.sample(dict(ops=sc[0]["ops"], observed=traces[0]["ev"][:12]))
    ctx.sample(dict(scenario=conc[0], observed=more[0]["ev"][:12]))
    report(ctx, "Udp_Trace", traces + more, sc + conc, "C22", "UDP endpoint")
    ctx.assumptions += ["loopback delivers datagrams in order and loses none while the socket buffer has room"]
