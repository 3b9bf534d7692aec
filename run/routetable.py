"""C11, C12, C13: the routing table (spec/RouteTable.tla, spec/RouteTable_Trace.tla, harness/cmd/rtdrv)."""
import random

INVS = ["TypeOK", "Bounded", "RightBucket", "HostStays", "FitsAtLimit", "NeverLose", "Abstract", "SizeOK", "ClosestOK"]


def mc_cfg(k, cap, maxpl, variants, addrs, maxlen, view="View", props=True, invs=INVS, constraint=None):
    s = "SPECIFICATION Spec\nCONSTANTS K = %d Cap = %d MaxPL = %d Variants = {%s} Addrs = {%s} MaxLen = %d\nVIEW %s\n" % (
        k, cap, maxpl, ",".join(map(str, range(variants))), ",".join(map(str, range(addrs))), maxlen, view)
    s += "CHECK_DEADLOCK FALSE\n"
    if invs:
        s += "INVARIANTS " + " ".join(invs) + "\n"
    if props:
        s += "PROPERTY NeverLoses\n"
    if constraint:
        s += "CONSTRAINT %s\n" % constraint
    return s


# ------------------------------------------------------------------ ids

def rnd_id(rng):
    return [rng.randrange(256) for _ in range(20)]


def with_prefix(rng, host, p):
    """An id sharing exactly p leading bits with host (the host itself for p >= 160)."""
    if p >= 160:
        return list(host)
    h = int.from_bytes(bytes(host), "big")
    r = rng.getrandbits(160)
    keep = (h >> (160 - p)) << (160 - p)
    flip = ((~h) >> (159 - p) & 1) << (159 - p)
    low = r & ((1 << (159 - p)) - 1)
    return list((keep | flip | low).to_bytes(20, "big"))


def addr(rng):
    return "%d.%d.%d.%d:%d" % (rng.randrange(1, 224), rng.randrange(256), rng.randrange(256), rng.randrange(1, 255),
                               rng.randrange(1, 65536))


def near_addr(rng, a):
    """An address that differs from a in the port only, in one bit of the IP address only, or in both."""
    ip, port = a.rsplit(":", 1)
    b, port = [int(x) for x in ip.split(".")], int(port)
    r = rng.random()
    if r < .6:
        port = rng.choice([port % 65535 + 1, (port ^ 256) or 1, rng.randrange(1, 65536)])
    if r >= .4:
        b[rng.choice([1, 2, 3])] ^= 1 << rng.randrange(7)
    return "%d.%d.%d.%d:%d" % (*b, port)


def twins(rng, i):
    """Ids different from i that a careless comparison takes for i: other letter case, other invalid bytes."""
    res = []
    j = [b ^ 0x20 if (0x41 <= b <= 0x5a or 0x61 <= b <= 0x7a) else b for b in i]
    if j != i:
        res.append(j)
    j = [(0x80 | rng.randrange(0x40)) if b >= 0x80 and rng.random() < .5 else b for b in i]
    if j != i:
        res.append(j)
    j = list(i)
    j[19] ^= 1
    res.append(j)
    j = list(i)
    j[rng.randrange(20)] ^= 1 << rng.randrange(8)
    res.append(j)
    return rng.choice(res)


class Table:
    def __init__(self, rng, k, cap, host=None):
        self.rng, self.k, self.cap = rng, k, cap
        host = host or (rnd_id(rng) if rng.random() < .7 else [rng.choice([0, 255])] * 20)
        self.ids, self.addrs, self.qids = [host], [addr(rng)], []
        self.seen = {(bytes(host), self.addrs[0])}

    def node(self, i, a=None):
        a = a or addr(self.rng)
        key = (bytes(i), a)
        if key in self.seen:
            for n, (x, y) in enumerate(zip(self.ids, self.addrs)):
                if bytes(x) == bytes(i) and y == a:
                    return n + 1
        self.seen.add(key)
        self.ids.append(list(i))
        self.addrs.append(a)
        return len(self.ids)

    def query(self, i):
        if i in self.qids:
            return self.qids.index(i) + 1
        self.qids.append(list(i))
        return len(self.qids)

    def cfg(self):
        return dict(ids=self.ids, addrs=self.addrs, qids=self.qids, k=self.k, cap=self.cap)

    def ask(self, ops, big=False):
        """Appends lookups of stored, absent and near ids."""
        rng = self.rng
        r = rng.random()
        if r < .45:
            i = rng.choice(self.ids)
        elif r < .65:
            i = twins(rng, rng.choice(self.ids))
        elif r < .9:
            i = with_prefix(rng, rng.choice(self.ids), rng.choice([rng.randrange(161), rng.randrange(12)]))
        else:
            i = rnd_id(rng)
        q = self.query(i)
        ops.append(dict(op="find", q=q))
        ops.append(dict(op="closest", q=q, k=rng.choice([1, 2, 3, self.k, 8, 8, 20])))


def embed(rng, beh, k, cap, maxpl, variants):
    """A behaviour of the spec as insertions into a real table: classes < cap go to increasing prefix lengths below the
    real division limit, classes >= cap to prefix lengths from the real limit on."""
    real = rng.choice([cap, cap + rng.randrange(40), 160 - (maxpl - cap) - rng.randrange(3), 152 - (maxpl - cap)])
    real = max(cap, real)
    low = sorted(rng.sample(range(real), cap)) if rng.random() < .6 else list(range(real - cap, real))
    room = list(range(real, 160))
    n_high = maxpl - cap
    if len(room) < n_high:
        return None
    high = sorted(rng.sample(room, n_high)) if rng.random() < .6 else room[:n_high]
    f = low + high + [160]
    t = Table(rng, k, real)
    pool = {}
    addrs = [t.addrs[0]]
    while len(addrs) < 3:
        a = addr(rng) if rng.random() < .3 else near_addr(rng, rng.choice(addrs))
        if a not in addrs:
            addrs.append(a)
    ops = []
    for c, v, a in beh:
        if (c, v) not in pool:
            base = [pool[x] for x in pool if x[0] == c]
            i = None
            if base and c < maxpl and rng.random() < .6:
                for _ in range(4):
                    i = twins(rng, base[0])
                    if list(i) not in pool.values() and prefix(i, t.ids[0]) == f[c]:
                        break
                    i = None
            while i is None or (c < maxpl and list(i) in pool.values()):
                i = with_prefix(rng, t.ids[0], f[c])
                if f[c] == 159:
                    break
            pool[(c, v)] = list(i)
        ops.append(dict(op="add", n=t.node(pool[(c, v)], addrs[a])))
    return t, ops


def prefix(a, b):
    x = int.from_bytes(bytes(a), "big") ^ int.from_bytes(bytes(b), "big")
    return 160 - x.bit_length()


def random_table(rng, n, k=None, cap=None):
    k = k or rng.choice([1, 2, 3, 8, 8])
    cap = cap if cap is not None else rng.choice([0, 1, 2, 5, 20, 159, 160, 160, 160])
    t = Table(rng, k, cap)
    ops = []
    mode = rng.choice(["deep", "uniform", "mixed", "near"])
    for _ in range(n):
        r = rng.random()
        if r < .12 and len(t.ids) > 1:
            m = rng.randrange(1, len(t.ids) + 1)          # again
        elif r < .2:
            j = rng.randrange(len(t.ids))                 # same id, other address
            m = t.node(t.ids[j], near_addr(rng, t.addrs[j]) if rng.random() < .7 else None)
        elif r < .3:
            j = rng.randrange(len(t.ids))
            m = t.node(twins(rng, t.ids[j]), rng.choice([None, t.addrs[j], rng.choice(t.addrs), near_addr(rng, t.addrs[j])]))
        else:
            p = {"deep": rng.randrange(161), "uniform": -1, "near": 160 - int(rng.expovariate(.3)) % 161,
                 "mixed": rng.choice([-1, rng.randrange(8), rng.randrange(161)])}[mode]
            i = rnd_id(rng) if p < 0 else with_prefix(rng, t.ids[0], max(0, p))
            m = t.node(i)
        ops.append(dict(op="add", n=m))
    return t, ops


# ------------------------------------------------------------------ checks

def design(ctx, quick, thorough):
    for a in ctx.pick(quick, thorough):
        ctx.model_check("RouteTable", mc_cfg(*a), must_cover=("AddNode",), timeout=700)


def behaviours(ctx, small, big):
    """Transition covers of small tables: [(params, behaviour)]."""
    res = []
    for p in ctx.pick(small, big):
        k, cap, maxpl, variants, addrs, maxlen = p
        for b in ctx.generate("RouteTable", mc_cfg(*p, view="GenView", props=False, invs=[], constraint="PrintBeh")):
            res.append((p, b))
    return res


def conclude(ctx, traces, scenarios, focus, what=""):
    rej = ctx.validate("RouteTable_Trace", traces, focus=focus)
    for i, n in rej[:20]:
        ev = traces[i]["ev"]
        bad = ev[n] if n < len(ev) else None
        ctx.violation("routing table: after %d explained events, %r cannot be explained%s" % (n, bad, what),
                      dict(kind="trace", scenario=scenarios[i], failed_at=n, event=bad, events=ev[:n + 1][-40:],
                           cfg=traces[i]["cfg"]))


def seq_scenarios(ctx, rng, ask, dump):
    sc = []
    behs = behaviours(ctx, [(1, 2, 4, 1, 1, 6), (2, 1, 2, 2, 2, 5)],
                      [(1, 2, 4, 2, 1, 7), (2, 1, 2, 2, 2, 6), (2, 2, 3, 2, 1, 8)])
    if len(behs) > ctx.pick(2500, 20000):
        behs = rng.sample(behs, ctx.pick(2500, 20000))
    for p, b in behs:
        r = embed(rng, b, *p[:4])
        if r is None:
            continue
        t, ops = r
        if ask:
            for _ in range(3):
                t.ask(ops)
        sc.append(dict(cfg=t.cfg(), ops=ops))
    for j in range(ctx.pick(60, 500)):
        t, ops = random_table(rng, rng.choice([5, 15, 40, 80]))
        if ask:
            out = []
            for o in ops:
                out.append(o)
                if rng.random() < .3:
                    t.ask(out)
            for _ in range(10):
                t.ask(out)
            ops = out
        sc.append(dict(cfg=t.cfg(), ops=ops))
    for j in range(ctx.pick(2, 12)):
        # division all the way to the limit: k+1 nodes per prefix length
        k, cap = rng.choice([(1, 160), (2, 160), (1, 159)])
        t = Table(rng, k, cap)
        ops = []
        order = list(range(161))
        if j % 3 == 1:
            order.reverse()
        elif j % 3 == 2:
            rng.shuffle(order)
        for p in order:
            for _ in range(k if k == 1 else rng.randrange(1, k + 2)):
                ops.append(dict(op="add", n=t.node(with_prefix(rng, t.ids[0], p))))
        if ask:
            for _ in range(12):
                t.ask(ops)
        sc.append(dict(cfg=t.cfg(), ops=ops))
    return sc


def run_seq(ctx, focus, ask):
    rng = random.Random(ctx.seed * 7919 + sum(map(ord, focus)))
    drv = ctx.go_build("cmd/rtdrv")
    sc = seq_scenarios(ctx, rng, ask, True)
    traces = ctx.drive(drv, sc, timeout=600)
    ctx.sample(dict(scenario=sc[0]["ops"], trace=traces[0]["ev"]))
    ctx.sample(dict(trace_tail=traces[-1]["ev"][-3:], insertions=len(sc[-1]["ops"])))
    conclude(ctx, traces, sc, focus)


def C11(ctx):
    design(ctx, [(2, 2, 4, 2, 1, 12)], [(2, 3, 4, 2, 1, 16), (2, 2, 3, 2, 2, 9), (3, 2, 3, 2, 2, 7)])
    run_seq(ctx, "C11", True)
    ctx.assumptions += ["a node counts as stored when Find of its id returns it or an unlimited FindClosest lists it"]


def C12(ctx):
    design(ctx, [(2, 1, 3, 1, 2, 9)], [(2, 2, 3, 2, 2, 9), (3, 2, 3, 2, 2, 7)])
    run_seq(ctx, "C12", False)
    rng = random.Random(ctx.seed * 104729 + 12)
    drv = ctx.go_build("cmd/rtdrv", race=True)
    sc = []
    for j in range(ctx.pick(60, 600)):
        t, ops = random_table(rng, rng.choice([8, 16, 30]))
        for o in list(ops):
            x = rng.random()
            if x < .25:
                ops.append(dict(o))          # a concurrent duplicate
            elif x < .45:
                ops.append(dict(op="size"))
            elif x < .55:
                t.ask(ops)
        rng.shuffle(ops)
        g = rng.choice([2, 3, 4])
        progs = [ops[i::g] for i in range(g)]
        sc.append(dict(cfg=t.cfg(), conc=[[dict(o, k=o.get("k", rng.randrange(3))) for o in p] for p in progs]))
    traces = ctx.drive(drv, sc, timeout=600)
    conclude(ctx, traces, sc, "C12", what=" (concurrent calls)")
    ctx.assumptions += ["concurrent histories are recorded with a global atomic clock read before and after each call"]


def C13(ctx):
    design(ctx, [(2, 2, 3, 2, 1, 10)], [(2, 3, 4, 2, 1, 16), (2, 2, 3, 2, 2, 9)])
    run_seq(ctx, "C13", True)
