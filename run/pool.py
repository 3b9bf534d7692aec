"""C14, C15, C16: the work pool and process shutdown."""
import concurrent.futures
import json
import os
import random
import signal
import time

import lib
import node
from misc import report


def wpdrive(ctx, scenarios, race=False, perturb=False, env=None):
    binary = ctx.go_build("wpdrv", name="wpdrv%s%s" % ("_race" if race else "", "_y" if perturb else ""),
                          race=race, test=True, perturb=perturb)
    inp, out = ctx.path("in-%d.json" % time.time_ns()), ctx.path("out-%d.json" % time.time_ns())
    with open(inp, "w") as f:
        json.dump(scenarios, f)
    e = dict(VERIF_IN=inp, VERIF_OUT=out)
    e.update(env or {})
    rc, so, se = ctx.run([binary, "-test.timeout=0", "-test.run=TestDrive"], timeout=600, ok=None, env=e,
                         cwd=ctx.conf_dir())
    ctx.crash_check(rc, se + so[-20000:] if rc else se, scenarios)
    if rc != 0 or not os.path.exists(out):
        ctx.exit_check(rc, so, se, scenarios)
        raise lib.CheckError("driver failed rc=%s: %s\n%s\n%s" % (rc, binary, so[-1500:], se[-3000:]))
    with open(out) as f:
        tr = json.load(f)
    return tr


CFG = "SPECIFICATION %s\nCONSTANTS N = %d T = %d MaxOps = %d EnvQuiet = %s\n%s\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS Once InOrder NoIdling HeldBack NoneLost RefusedNeverRun DrainedMeansDone NobodyLeft ShutReports\nVIEW View"
ACTS = ("Submit", "Accept", "Take", "Finish", "Leave", "Drained", "Begin", "Timeout", "Again")


def steps(rng, beh):
    """A script of the specification, with times and extra pauses put in."""
    res, k = [], 0
    slow = rng.random() < .7
    timeout = rng.choice([400, 1000, 7000])
    for o in beh:
        if slow and rng.random() < .4:
            res.append(dict(op="sleep", ms=rng.choice([1, 7, 30, 30, 120, 1100, 6000, 70000])))
        if o[0] in ("submit", "finish"):
            res.append(dict(op=o[0], s=o[1]))
        elif o[0] == "again":
            res.append(dict(op=rng.choice(["shutdown", "shutdown", "twin", "cancel", "both"]), ms=rng.choice([0, 5, timeout, 20000])))
        elif o[0] in ("shutdown", "cancel"):
            if o[0] == "cancel" and rng.random() < .3:
                res.append(dict(op="both", ms=timeout))
            elif o[0] == "shutdown" and rng.random() < .2:
                res.append(dict(op="twin", ms=timeout))
            else:
                res.append(dict(op=o[0], ms=timeout))
        elif o[0] == "sleep":
            res.append(dict(op="sleep", ms=timeout + 3000))
    return res


def scripts(ctx, salt, want_shutdown):
    rng = random.Random(ctx.seed * 53 + salt)
    sc = []
    for n, t, m in ctx.pick([(1, 4, 9), (2, 5, 9), (3, 8, 11)], [(1, 5, 13), (2, 6, 12), (2, 7, 15), (3, 8, 13), (4, 9, 14)]):
        bs = ctx.generate("WorkPool", CFG % ("Spec", n, t, m, "TRUE", "VIEW GenView\nCONSTRAINT PrintBeh"))
        bs = [b for b in bs if any(o[0] in ("shutdown", "cancel") for o in b) == want_shutdown or rng.random() < .2]
        rng.shuffle(bs)
        for b in bs[:ctx.pick(220, 1500)]:
            sc.append(dict(kind="step", n=n, steps=steps(rng, b)))
    for j in range(ctx.pick(120, 1200)):
        n = rng.choice([1, 2, 3, 4, 6])
        s, nt, begun = [], 0, False
        for i in range(rng.choice([10, 25, 50])):
            r = rng.random()
            if r < .5:
                nt += 1
                s.append(dict(op="submit", s=nt))
            elif r < .8 and nt:
                s.append(dict(op="finish", s=rng.randint(max(1, nt - 4 * n), nt)))
            elif r < .9:
                s.append(dict(op="sleep", ms=rng.choice([1, 10, 100, 1000])))
            elif want_shutdown and (begun or r < .93) and i > 4:
                begun = True
                s.append(dict(op=rng.choice(["shutdown", "twin", "both", "cancel"]), ms=rng.choice([1, 50, 500, 3000, 100000])))
        sc.append(dict(kind="step", n=n, steps=s))
    for n in ctx.pick([70, 300, 600], [40, 130, 257, 300, 520, 1030]):
        # as many tasks as a large pool can run, as many again waiting, and a few more
        s = []

        def add(op, t, last=False):
            s.append(dict(op=op, s=t, quiet=not last))
        for t in range(1, 2 * n + 4):
            add("submit", t, t in (1, n // 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 3))
        s.append(dict(op="sleep", ms=rng.choice([1, 5000])))
        for t in rng.sample(range(1, n + 1), 9):
            add("finish", t, True)
        if want_shutdown:
            s.append(dict(op=rng.choice(["shutdown", "twin", "both", "cancel"]), ms=rng.choice([50, 100000])))
        for t in range(1, 2 * n + 1):
            add("finish", t, t % (n // 3) == 0)
        sc.append(dict(kind="step", n=n, steps=s))
    rng.shuffle(sc)
    return sc


def races(ctx, salt, shutdowns):
    rng = random.Random(ctx.seed * 59 + salt)
    sc = []
    for j in range(ctx.pick(30, 200)):
        d = dict(kind="race", n=rng.choice([1, 2, 3, 5]), submitters=rng.choice([1, 2, 4]), each=rng.choice([1, 3, 8, 20]),
                 rounds=ctx.pick(12, 30))
        if shutdowns:
            d["stop"], d["cancel"] = rng.choice([(1, False), (2, False), (3, False), (2, True), (0, True), (4, True)])
        sc.append(d)
    return sc


def check(ctx, prop, want_shutdown):
    for n, t, m in ctx.pick([(1, 3, 9), (2, 4, 11)], [(1, 4, 11), (2, 5, 13), (3, 5, 13)]):
        ctx.model_check("WorkPool", CFG % ("Spec", n, t, m, "FALSE", INV), must_cover=ACTS)
    ctx.model_check("WorkPool", CFG % ("Fair", 2, 3, 9, "FALSE", "PROPERTIES Ends AllRun"))
    sc = scripts(ctx, 14 + want_shutdown, want_shutdown)
    traces = wpdrive(ctx, sc)
    if len(traces) < len(sc):
        raise lib.CheckError("%d of %d scenarios recorded" % (len(traces), len(sc)))
    ctx.sample(dict(script=sc[0], observed=traces[0]["ev"][:8]))
    report(ctx, "WorkPool_Trace", traces, sc, prop, "work pool in steps")
    rc = races(ctx, 14 + want_shutdown, want_shutdown)
    traces = wpdrive(ctx, rc, perturb=True, env=dict(VERIF_YIELD="sleep"))
    traces += wpdrive(ctx, [dict(s, rounds=max(2, s["rounds"] // 3)) for s in rc], race=True, perturb=True)
    ctx.sample(traces[0]["ev"][:10])
    report(ctx, "WorkPool_Trace", traces, rc, prop, "work pool, racing")
    ctx.assumptions += ["tasks do not panic, pools have at least one worker",
                        "the fate of a submission that races with the beginning of a shutdown is not specified"]


def C14(ctx):
    check(ctx, "C14", False)


def C15(ctx):
    check(ctx, "C15", True)


# ------------------------------------------------------------------ C16

SCFG = "SPECIFICATION %s\nCONSTANTS K = %d Sources = {%s} EnvQuiet = %s Reg = \"before\"\n%s\nCHECK_DEADLOCK FALSE\n"


def C16(ctx):
    ctx.model_check("Shutdown", SCFG % ("Fair", ctx.pick(3, 4), '"cancel","signal"', "FALSE",
                                        "INVARIANTS NotBefore Truth AllAtOnce\nPROPERTIES Returns AllStart"),
                    must_cover=("Notice", "Start", "Return", "Finish", "Expire"))
    anytime = SCFG.replace("before", "any")
    ctx.model_check("Shutdown", anytime % ("Fair", ctx.pick(2, 3), '"cancel"', "FALSE", "INVARIANTS NotBefore Truth AllAtOnce Kept\nPROPERTIES Returns AllStart"),
                    must_cover=("Register", "Notice", "Return"))
    ctx.refute("Shutdown", SCFG.replace("before", "copy") % ("Spec", 2, '"cancel"', "FALSE", "INVARIANTS Kept"), "Kept")
    rng = random.Random(ctx.seed * 61 + 16)
    sc = []
    for k in (0, 1, 2, 3):
        for b in ctx.generate("Shutdown", SCFG % ("Spec", k, '"cancel"', "TRUE", "VIEW GenView\nCONSTRAINT PrintBeh")):
            names = [o[0] for o in b]
            if "wait" not in names or "cancel" not in names:
                continue
            t, at, dur, exp = 0, 0, {}, None
            for o in b:                     # times in the order of the script, counted from the beginning of shutdown
                t += rng.choice([1, 10, 60, 500])
                if o[0] == "finish":
                    dur[o[1]] = t
                elif o[0] == "expire":
                    exp = t
            sc.append(dict(kind="shut", cleans=[dict(ms=dur.get(i + 1, -1)) for i in range(k)],
                           timeout=exp if exp is not None else t + rng.choice([5, 1000]), at=rng.choice([0, 1, 40, 3000]),
                           before=names.index("cancel") < names.index("wait"),
                           batches=[rng.randrange(k + 1)] if rng.random() < .5 else []))
    for j in range(ctx.pick(60, 600)):
        k = rng.choice([0, 1, 5, 20, 100])
        sc.append(dict(kind="shut", cleans=[dict(ms=rng.choice([-1, 0, 0, 1, 50, 500, 2000]) if rng.random() < .5 else rng.choice([0, 5, 30])) for _ in range(k)],
                       timeout=rng.choice([1, 31, 499, 501, 5000]), at=rng.choice([0, 1, 40, 3000]), before=rng.random() < .4,
                       batches=[rng.randrange(4) for _ in range(rng.randrange(4))]))
    # registered by many, and while shutdown begins
    many = [dict(kind="shut", cleans=[dict(ms=rng.choice([0, 0, 5, 50])) for _ in range(rng.choice([8, 40, 120]))], timeout=5000, at=rng.choice([0, 3]),
                 before=rng.random() < .3, batches=[], reg=rng.choice([0, 2, 4, 8]), late=rng.choice([0, 1, 4])) for _ in range(ctx.pick(60, 600))]
    sc += many
    rng.shuffle(sc)
    traces = wpdrive(ctx, sc)
    ctx.sample(dict(scenario=sc[0], observed=traces[0]["ev"][:10]))
    more = wpdrive(ctx, many, perturb=True)
    for t in more:
        t["cfg"]["scenario"] += len(sc)
    report(ctx, "Shutdown_Trace", traces + more, sc + many, "C16", "process shutdown")
    wpdrive(ctx, sc[:ctx.pick(60, 300)] + many[:ctx.pick(20, 200)], race=True)

    # real signals, in processes of their own
    real = []
    for how in ("int", "term", "cancel", "int-first"):
        real += [dict(how=how, cleans=[0, 100, 200], timeout=5000), dict(how=how, cleans=[-1, 50], timeout=300),
                 dict(how=how, cleans=[], timeout=5000), dict(how=how, cleans=[150] * 12, timeout=8000)]
    real += [dict(how="int", cleans=[300, 300], timeout=5000, twice=True), dict(how="term", cleans=[400], timeout=150)]
    real *= ctx.pick(1, 6)
    binary = ctx.go_build("cmd/sigdrv")

    def one(j):
        s = real[j]
        out = ctx.path("sig-%d.json" % time.time_ns())
        rc, so, se = ctx.run([binary, out], stdin=json.dumps(s), timeout=60, ok=None, cwd=ctx.mkdir("sig%d" % j))
        if rc == 96:
            ctx.violation("the wait for shutdown never returned", dict(kind="hang", scenario=s, out=so[-2000:]))
        ctx.crash_check(rc, se, None)
        if rc < 0:
            ctx.violation("the signal killed the process instead of shutting it down (%s)" % signal.Signals(-rc).name,
                          dict(kind="killed", scenario=s))
        if rc != 0:
            raise lib.CheckError("driver failed rc=%s %s" % (rc, se[-2000:]))
        with open(out) as f:
            t = json.load(f)[0]
        t["cfg"]["scenario"] = j
        return t

    for attempt in range(3):      # real time: a run is repeated before it counts against the code
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            traces = list(ex.map(one, range(len(real))))
        rej = ctx.validate("Shutdown_Trace", traces, focus="C16")
        if not rej:
            break
    else:
        report(ctx, "Shutdown_Trace", traces, real, "C16", "process shutdown by signal")
    crawler(ctx)
    ctx.assumptions += ["a timeout that runs out at the very moment the last cleanup ends may count as either",
                        "real-time runs allow 600 ms of lateness and are repeated before they count"]


def crawler(ctx):
    """The crawler exits with success on SIGINT and SIGTERM."""
    for sig in (signal.SIGINT, signal.SIGTERM):
        for delay in (0, 0.4):
            n = node.Node(ctx)
            time.sleep(delay)
            n.check_alive("started", {})
            rc = n.stop(sig)
            ctx.events += 1
            if rc is None:
                ctx.violation("the crawler does not stop on %s" % sig.name, dict(kind="exit", signal=sig.name, rc=None))
            elif rc != 0:
                ctx.violation("the crawler exits with %s on %s" % (rc, sig.name),
                              dict(kind="exit", signal=sig.name, rc=rc, out=n.output()[-2000:]))
