"""C27: the loggers, and the first use of loggers and settings by several goroutines at once."""
import json
import os
import random
import re
import time

import lib

LEVELS = ["DEBUG", "INFO", "WARN", "ERROR", "PANIC", "TRACE"]
SEVS = ["Debug", "Info", "Warn", "Error", "Panic", "Trace"]
LINE = re.compile(r"(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\.\d{3} +(Debug|Info|Warn|Error|Panic|Trace): (.*?)\r?")
WORDS = ["", "a", "msg", "two words", "x=1|y:2", "%d %s %!", "[in]", "ü€日本", "tab\there", "a" * 300, "\\r\\n", "\"q\"", ", "]
CONF = dict(dht=dict(Port=0, WorkPoolSize=3, BootstrapNodes=["127.0.0.1:9", "127.0.0.1:8"]), fetchTorrent=dict(InfoHashQueueSize=11, WorkPoolSize=7),
            pprof=dict(NeedRun=False), logger=dict(Level="Warn"))


def level(rng):
    v = rng.choice(LEVELS)
    return rng.choice([v, v.lower(), v.capitalize()])


def word(rng, ws=WORDS):
    w = rng.choice(ws)
    return w if rng.random() > .03 else (w or "long ") * rng.choice([20, 150, 600, 2000])


def ctxs(rng):
    r = []
    for k in rng.sample(["to", "err", "len", "a b", "k:v", "ü"], rng.choice([0, 1, 1, 2, 3])):
        t = rng.choice(["string", "int", "bool", "error", "stringer", "list"])
        v = dict(string=word(rng), int=rng.choice([0, -1, 7, 1 << 40]), bool=rng.random() < .5, error=word(rng, WORDS[1:]), stringer=word(rng), list=[1, 2] * rng.choice([1, 1, 1, 300]) if rng.random() < .2 else [1, 2])[t]
        r.append(dict(k=k, t=t, v=v, shown=v if isinstance(v, str) else json.dumps(v, separators=(",", ":"))))
    return r


def say(rng, sev=None):
    c = ctxs(rng)
    return dict(op="say", of=rng.randrange(60), sev=sev or rng.choice(SEVS), msg=word(rng), ctx=c, nil=not c)


def get(rng, names):
    if rng.random() < .2:
        return dict(op="get", bare=True)
    return dict(op="get", name=rng.choice(names))


def op(rng, names, sets=True):
    z = rng.random()
    if z < .03:
        return dict(op="file", name="f%d" % rng.randrange(10 ** 9), v=rng.choice(LEVELS))
    if z < .2:
        return get(rng, names)
    if z < .35:
        return dict(op="prefix", of=rng.randrange(60), p=rng.choice(["p", "config", "", "a b", "%s", "dht", "ü"]))
    if z < .5 and sets:
        return dict(op="set", v=level(rng))
    return say(rng)


def replayed(rng, b):
    """The operations of a behaviour of the specification, each followed by messages of every severity from every logger."""
    seq, n = [], 0
    real = [rng.choice(LEVELS) for _ in range(3)]
    real.sort(key=LEVELS.index)
    for o, x in b:
        if o == "get":
            seq.append(dict(op="get", name=x))
            n += 1
        elif o == "set":
            seq.append(dict(op="set", v=real[x]))
        else:
            # the specification numbers loggers made; those at hand are numbered by the calls that gave them
            seq.append(dict(op="prefix", of=x - 1, p="q%d" % n))
            n += 1
        for i in range(n):
            for s in SEVS:
                seq.append(dict(say(rng, s), of=i))
    return dict(kind="console", level=real[0], seq=seq)


def lines(ctx, tr):
    """Gives each message its lines; the others become strays."""
    out = bytes_of(tr["out"]).decode("utf-8", "replace")
    by, strays = {}, []
    says = {e["id"]: e for e in tr["ev"] if e.get("op") == "say"}
    for e in says.values():
        e["lines"] = []
        for c in e["ctx"]:
            c["shown"] = c["v"] if isinstance(c["v"], str) else json.dumps(c["v"], separators=(",", ":"))
    parts = out.split("\n")
    if parts[-1] == "":
        parts.pop()
    for pos, s in enumerate(parts, 1):
        m = LINE.fullmatch(s)
        ids = re.findall(r"<\d+\.\d+/\d+>", s)
        if not m or len(ids) != 1 or ids[0] not in says:
            strays.append(dict(e="stray", line=s[:2000]))
            continue
        t = time.mktime(time.strptime(m.group(1), "%Y-%m-%d %H:%M:%S"))
        says[ids[0]]["lines"].append(dict(sev=m.group(2), body=m.group(3), pos=pos, fresh=tr["t0"] - 1 <= t <= tr["t1"] + 1))
    for name, b in (tr.get("files") or {}).items():
        for x in bytes_of(b or "").decode("utf-8", "replace").split("\n"):
            try:
                d = json.loads(x)
                e = says[re.search(r"<\d+\.\d+/\d+>", d["msg"]).group(0)]
                e["lines"].append(dict(sev=d.pop("level").capitalize(), name=name, fresh=tr["t0"] - 1 <= d.pop("ts") <= tr["t1"] + 1, msg=d.pop("msg"),
                                       ctx=[dict(k=k, shown=v if isinstance(v, str) else json.dumps(v, separators=(",", ":"))) for k, v in d.items()]))
            except (ValueError, KeyError, TypeError, AttributeError):
                if x:
                    strays.append(dict(e="stray", file=name, line=x[:2000]))
    return tr["ev"] + strays


def bytes_of(b64):
    import base64
    return base64.b64decode(b64)


def C27(ctx):
    cfg = "SPECIFICATION Spec\nCONSTANTS Procs = {%s} Names = {%s} Levels = {%s} MaxOps = %d Broken = \"%s\"\n%s\nCHECK_DEADLOCK FALSE\n"
    inv = "INVARIANTS InForce OneEach\nVIEW View"
    for ps, ns, k in ctx.pick([("p1,p2", "a,b", 3)], [("p1,p2", "a,b", 3), ("p1,p2,p3", "a,b", 2), ("p1,p2", "a", 4)]):
        ctx.model_check("Logger", cfg % (ps, ns, "0,1", k, "none", inv), must_cover=("Begin", "Enter", "Make", "Walk", "Derive", "Done"))
    for b, which in (("keep", "InForce"), ("copy", "InForce"), ("fast", "OneEach"), ("late", "InForce")):
        ctx.refute("Logger", cfg % ("p1,p2", "a", "0,1", 3, b, inv), which)
    rng = random.Random(ctx.seed * 113 + 27)
    behs = ctx.generate("Logger", cfg % ("p1", "a,b", "0,1,2", ctx.pick(4, 5), "none", "CONSTRAINT PrintBeh"))
    rng.shuffle(behs)
    sc = [dict(kind="console", level="", seq=[dict(op="get", bare=True)] + [dict(say(rng, s), of=0) for s in SEVS])]
    sc += [replayed(rng, b) for b in behs[:ctx.pick(150, 3000)]]
    for j in range(ctx.pick(60, 600)):
        names = ["n%d" % k for k in range(rng.choice([1, 2, 5]))] + ["", "a b"]
        sc.append(dict(kind="console", level=level(rng), seq=[get(rng, names)] + [op(rng, names) for _ in range(50)]))
    conc = []
    for j in range(ctx.pick(60, 500)):
        names = ["n%d" % k for k in range(rng.choice([1, 2, 4]))]
        g = rng.choice([2, 3, 4])
        many = rng.choice([4, 8, 20])
        conc.append(dict(kind="console", level=level(rng), seq=[get(rng, names)] + [op(rng, names) for _ in range(rng.choice([0, 3]))],
                         progs=[[op(rng, names, p == 0) for _ in range(many)] for p in range(g)],
                         after=[dict(say(rng, s), of=i) for i in range(4) for s in SEVS], rounds=ctx.pick(4, 8)))
    fac = []
    for j in range(ctx.pick(20, 200)):       # loggers of another factory
        names = ["n%d" % k for k in range(rng.choice([1, 2, 6]))]
        if j % 3 == 0:
            fac.append(dict(kind="factory", level=level(rng), seq=[rng.choice([get(rng, names), dict(op="set", v=level(rng)), dict(op="prefix", of=1, p="x")]) for _ in range(20)]))
        else:
            g = rng.choice([2, 3, 8])
            fac.append(dict(kind="factory", level=level(rng), progs=[[get(rng, names) for _ in range(3)] for p in range(g)], rounds=ctx.pick(20, 40)))
    conf = [dict(kind="conf", rounds=ctx.pick(100, 600))]
    d = ctx.conf_dir()
    with open(os.path.join(d, "conf", "config.json"), "w") as f:
        json.dump(CONF, f)
    plain, some = sc + conc + fac + conf, conc + fac + conf
    traces, of = [], []
    for exe, ss, env in ((ctx.go_build("cmd/logdrv", perturb=True), plain, dict(VERIF_YIELD="sleep")), (ctx.go_build("cmd/logdrv", race=True, perturb=True), some, {})):
        for n, t in enumerate(ctx.drive(exe, ss, timeout=600, cwd=d, env=env)):
            i = t["cfg"].get("scenario", -1)
            first = ss is plain and n == 0
            traces.append(dict(cfg=dict(made=t["cfg"]["made"], factory=i >= 0 and ss[i]["kind"] == "factory", first=first, conf=CONF), ev=lines(ctx, t)))
            of.append(ss[i] if i >= 0 else conf[0])
    ctx.sample([dict(op=e["op"], sev=e["sev"], line=[x["body"][:80] for x in e["lines"]]) for e in traces[0]["ev"] if e["op"] == "say"])
    ctx.sample([e for e in traces[len(sc)]["ev"]][:8])
    rej = ctx.validate("Logger_Trace", traces, focus="C27")
    for i, n in rej[:1]:
        ev = traces[i]["ev"]
        ctx.violation("loggers: after %d explained events no behaviour of the specification gives %s" % (n, json.dumps(ev[n] if n < len(ev) else None)[:600]),
                      dict(kind="trace", history=ev[max(0, n - 300):n + 1], failed_at=n, made=traces[i]["cfg"]["made"], scenario=of[i]))
    ctx.assumptions += ["two loggers of one file are not exercised", "level names that are none of the six are not specified", "messages and values with line breaks are not generated",
                        "a message said while the level is being set may go by either level"]
