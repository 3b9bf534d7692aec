"""C20, C21: bencode (spec/Bencode.tla, spec/Bencode_Trace.tla, harness/cmd/bendrv)."""
import json, random

I64 = 1 << 63


def cfg(alphabet, maxlen, maxstr, inv=True, gen=False):
    s = "SPECIFICATION Spec\nCONSTANTS Alphabet = {%s} MaxLen = %d MaxStr = %d\nCHECK_DEADLOCK FALSE\n" % (
        ",".join(str(ord(c)) for c in alphabet), maxlen, maxstr)
    if inv:
        s += "INVARIANTS Agree RoundTrip Dead\n"
    if gen:
        s += "CONSTRAINT PrintBeh\n"
    return s


# ---------------------------------------------------------------- values and an independent encoder

def rbytes(rng, n):
    m = rng.random()
    if m < .4:
        return bytes(rng.choice(b"abcilde:-0123456789") for _ in range(n))
    return bytes(rng.randrange(256) for _ in range(n))


def rint(rng):
    r = rng.random()
    if r < .3:
        return rng.randrange(-20, 120)
    if r < .5:
        return rng.choice([I64 - 1, -I64, I64 - 2, 1 - I64, 0, 1 << 31, -(1 << 31), (1 << 31) - 1, 1 << 32, 10 ** 18])
    return rng.randrange(-I64, I64) >> rng.randrange(64)


def rval(rng, depth, other=0.0):
    r = rng.random()
    if other and rng.random() < other:
        return ("x", rng.choice(OTHER))
    if depth <= 0 or r < .3:
        return ("i", rint(rng)) if rng.random() < .5 else ("s", rbytes(rng, rng.choice([0, 1, 2, 5, 20, 26, 111])))
    if r < .65:
        return ("l", [rval(rng, depth - 1, other) for _ in range(rng.choice([0, 1, 2, 3, 5]))])
    ks = {rbytes(rng, rng.choice([0, 1, 2, 6])) for _ in range(rng.choice([0, 1, 2, 3, 5]))}
    return ("d", [(k, rval(rng, depth - 1, other)) for k in ks])


OTHER = ["nil", "float", "int64", "int32", "int8", "uint", "uint8", "uint64", "bool", "bytes", "myint", "mystr", "map",
         "err", "ptr", "struct", "func", "chan", "strs", "pdict", "complex", "rune", "plist", "ints", "uintptr", "array",
         "float32", "stringer", "mapi"]


def enc(v):
    t, x = v
    if t == "i":
        return b"i%de" % x
    if t == "s":
        return b"%d:%s" % (len(x), x)
    if t == "l":
        return b"l" + b"".join(map(enc, x)) + b"e"
    return b"d" + b"".join(enc(("s", k)) + enc(y) for k, y in x) + b"e"


def js(v):
    t, x = v
    if t == "i":
        return dict(t="i", v=list(str(x).encode()))
    if t == "s":
        return dict(t="s", v=list(x))
    if t == "l":
        return dict(t="l", v=[js(y) for y in x])
    if t == "d":
        return dict(t="d", v=[dict(k=list(k), v=js(y)) for k, y in x])
    return dict(t=t, v=x)


def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        m = rng.randrange(9)
        i = rng.randrange(len(b) + 1)
        if m == 0:
            b = b[:i]
        elif m == 1 and b:
            b[min(i, len(b) - 1)] ^= 1 << rng.randrange(8)
        elif m == 2:
            b[i:i] = bytes([rng.choice(b"ilde:-+0123456789 _.xX\x00\xff")])
        elif m == 3 and i < len(b):
            del b[i]
        elif m == 4:
            b += rng.choice([b"e", b"0:", b"i1e", b"\n", b"x", b"de", b"l", b"1:"])
        elif m == 5:        # a number becomes a delicate one
            ds = [j for j in range(len(b)) if 48 <= b[j] <= 57]
            if ds:
                j = rng.choice(ds)
                b[j:j + 1] = rng.choice([b"9223372036854775807", b"9223372036854775808", b"-9223372036854775808",
                                         b"-9223372036854775809", b"18446744073709551615", b"18446744073709551616",
                                         b"4294967296", b"2147483648", b"00", b"-0", b"-", b"+1", b"1_0", b"0x1", b" 1",
                                         b"1 ", b"99999999999999999999999999", b"-1", b"1e3", b"1.0", b"",
                                         b"\xc2\xb2", b"9223372036854775800", b"9223372036854775799"])
        elif m == 6 and len(b) > 2:
            j = rng.randrange(len(b))
            b = b[:i] + b[j:]
        elif m == 7:
            b = bytearray(rng.choice([b"d", b"l", b"d1:a", b"i"])) + b
        elif m == 8 and len(b) > 1:
            j = rng.randrange(len(b) - 1)
            b[j], b[j + 1] = b[j + 1], b[j]
    return bytes(b)


def decs(b):
    return [dict(e="dec", fn=f, **{"in": list(b)}) for f in ("int", "str", "list", "dict", "prefix")]


def chunk(evs, n):
    return [dict(cfg=dict(n=0), ev=evs[i:i + n]) for i in range(0, len(evs), n)]


def execute(ctx, cases, prop):
    drv = ctx.go_build("cmd/bendrv")
    out = ctx.path("bencode.out")
    rc, _, se = ctx.run([drv, out], stdin=json.dumps(cases), ok=None, timeout=300)
    ctx.crash_check(rc, se, cases)
    if rc != 0:
        import lib
        raise lib.CheckError("bendrv failed: " + se[-2000:])
    with open(out) as f:
        evs = [json.loads(x) for x in f]
    ctx.sample(evs[len(evs) // 3])
    ctx.sample(evs[-1] if len(json.dumps(evs[-1])) < 2000 else evs[0])
    traces = chunk(evs, 60)
    rej = ctx.validate("Bencode_Trace", traces, focus=prop)
    for i, n in rej[:1]:
        e = traces[i]["ev"][n]
        src = bytes(e["in"]) if e["e"] == "dec" else None
        ctx.violation("bencode: %s" % (("Decode(%s) of %r: ok=%s %s" % (e["fn"], src, e["ok"], json.dumps(e["val"])[:300]))
                                       if src is not None else "encoding %s" % json.dumps(e)[:600]),
                      dict(kind="trace", event=e, case=cases[i * 60 + n]))


def distinct(cases):
    seen, res = set(), []
    for c in cases:
        k = json.dumps(c, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(c)
    return res


def large(ctx, rng, prop):
    """Values of many parts, and deep ones."""
    cs = []
    sizes = [90, 300, 1000, 4097, 10001] + ctx.pick([20000], [20000, 65537, 130000])
    for n in sizes + [99999, 100000, 100001, 1 << 20] + ctx.pick([], [9999999, 10000000]):
        cs.append(dict(e="big", fn="str", n=n))
        for fn in ("list", "dict", "prefix"):
            cs.append(dict(e="big", fn=fn, n=rng.choice([0, 1, 3]), part="int", **{"in": [n]}))
    for n in sizes:
        for fn in ("list", "dict", "prefix"):
            for part in ("int", "str", "empty", "dict"):
                cs.append(dict(e="big", fn=fn, n=n, part=part))
    if prop == "C20":
        for c in list(cs):
            if rng.random() < .3:
                cs.append(dict(c, cut=rng.choice([1, 1, 2, 7, 40])))
            if rng.random() < .3:
                cs.append(dict(c, tail=rng.choice(["e", "0:", "i1e", "x", "le" * 300])))
        for n in (1000, 5000, 20000, 300000, 4000000):
            for fn, o, mid in (("list", b"l", ""), ("dict", b"d1:a", "i1e"), ("prefix", b"d0:", "de"), ("dict", b"d1:al", "")):
                cs.append(dict(e="nested", fn=fn, n=n, tail="", **{"in": list(o)}))
                if n > 1000000:
                    continue
                cs.append(dict(e="nested", fn=fn, n=n, tail=mid + ("e" if o[-1:] != b"l" or o == b"l" else "ee") * n,
                               **{"in": list(o)}))
    return cs


def C20(ctx):
    rng = random.Random(ctx.seed * 31 + 20)
    ctx.model_check("Bencode", cfg("ilde:-012a", ctx.pick(6, 8), 12), must_cover=("Read",))
    pre = ctx.generate("Bencode", cfg("ilde:-01a", ctx.pick(6, 7), 12, inv=False, gen=True), timeout=600)
    sigma = b"ilde:-+012 a\xff"
    inputs = {b""}
    for p in pre:
        b = bytes(p)
        inputs.add(b)
        for c in sigma:
            inputs.add(b + bytes([c]))
            if rng.random() < .15:
                inputs.add(b + bytes([c]) + rng.choice([b"e", b"ee", b"1:a", b"i1ee", b"0:e"]))
    inputs = sorted(inputs)
    cap = ctx.pick(9000, 120000)
    if len(inputs) > cap:
        inputs = rng.sample(inputs, cap)
    ctx.parts["enumerated_inputs"] = len(inputs)
    for _ in range(ctx.pick(3000, 30000)):
        v = rval(rng, rng.choice([0, 1, 2, 3]))
        if v[0] in "is" and rng.random() < .5:
            v = ("d", [(b"a", v)])
        b = enc(v)[:1200]
        inputs.append(b)
        inputs.append(mutate(rng, b))
        if rng.random() < .3:
            inputs.append(mutate(rng, mutate(rng, b)))
    # truncation at every point and one flipped byte at every point of typical messages
    typical = [b"d1:ad2:id20:abcdefghij0123456789e1:q4:ping1:t2:aa1:y1:qe",
               b"d1:ad2:id20:abcdefghij01234567896:target20:mnopqrstuvwxyz123456e1:q9:find_node1:t2:aa1:y1:qe",
               b"d1:eli203e5:errore1:t2:aa1:y1:ee", b"d8:msg_typei1e5:piecei0e10:total_sizei34256ee",
               b"d1:rd2:id20:0123456789abcdefghij5:nodes26:aaaaaaaaaaaaaaaaaaaabbbbcce1:t2:aa1:y1:re"]
    for b in typical:
        for i in range(len(b)):
            inputs.append(b[:i])
            inputs.append(b[:i] + bytes([rng.choice(b"ilde:-0129z\x00")]) + b[i + 1:])
            inputs.append(b[:i] + b[i + 1:])
    for d in (10, 100, 500, ctx.pick(600, 2000)):
        for x in (b"l" * d, b"l" * d + b"e" * d, b"d1:a" * d, b"d1:a" * d + b"i1e" + b"e" * d, b"l" * d + b"e" * (d - 1),
                  b"d0:" * d + b"de" + b"e" * d, b"9" * d, b"9" * d + b":", b"i" + b"9" * d + b"e", b"l9" + b"9" * d + b":e"):
            inputs.append(x)
    cases = [c for b in inputs for c in decs(b)]
    cases = distinct(cases)
    rng.shuffle(cases)
    cases += large(ctx, rng, "C20")
    execute(ctx, cases, "C20")
    ctx.assumptions += ["no side is taken on string lengths with leading zeros and on repeated dictionary keys"]


def C21(ctx):
    rng = random.Random(ctx.seed * 37 + 21)
    ctx.model_check("Bencode", cfg("ilde:-012a", ctx.pick(6, 8), 12), must_cover=("Read",))
    pre = ctx.generate("Bencode", cfg("ilde:-01a", ctx.pick(6, 8), 12, inv=False, gen=True), timeout=600)
    vals = []

    def dec(b, i=0):    # value of a prefix that happens to be complete
        c = b[i:i + 1]
        if c == b"i":
            j = b.index(b"e", i)
            return ("i", int(b[i + 1:j])), j + 1
        if c in (b"l", b"d"):
            xs, i = [], i + 1
            while b[i:i + 1] != b"e":
                x, i = dec(b, i)
                xs.append(x)
            if c == b"l":
                return ("l", xs), i + 1
            return ("d", list({xs[j][1]: xs[j + 1] for j in range(0, len(xs), 2)}.items())), i + 1
        j = b.index(b":", i)
        n = int(b[i:j])
        if j + 1 + n > len(b):
            raise ValueError
        return ("s", b[j + 1:j + 1 + n]), j + 1 + n

    for p in pre:
        try:
            v, n = dec(bytes(p))
            if n == len(p):
                vals.append(v)
        except (ValueError, IndexError):
            pass
    ctx.parts["enumerated_values"] = len(vals)
    for _ in range(ctx.pick(2500, 30000)):
        vals.append(rval(rng, rng.choice([0, 1, 2, 3, 4])))
    for n in list(range(0, 130)) + [255, 256, 999, 1000, 1001, 4096, 9999, 10000]:
        vals.append(("s", rbytes(rng, n)))
        vals.append(("l", [("s", rbytes(rng, min(n, 400)))] * min(n, 3)))
    for n in range(64):
        for d in (-1, 0, 1):
            for s in (1, -1):
                x = s * ((1 << n) + d)
                if -I64 <= x < I64:
                    vals.append(("i", x))
                    vals.append(("d", [(b"k", ("i", x))]))
    for n in range(20):
        for s in (1, -1):
            for d in (-1, 0, 1):
                if abs(s * (10 ** n) + d) < I64:
                    vals.append(("i", s * (10 ** n) + d))
    for b in range(256):
        vals.append(("s", bytes([b])))
        vals.append(("d", [(bytes([b]), ("s", bytes([b, b])))]))
    for k in OTHER:
        x = ("x", k)
        for w in (("l", [x]), ("d", [(b"a", x)]), ("l", [("i", 1), x, ("s", b"z")]), ("d", [(b"a", ("l", [x]))]),
                  ("l", [("d", [(b"", x)])]), ("d", [(b"a", ("i", 1)), (b"b", x)]), ("l", [("l", []), ("l", [x])])):
            vals.append(w)
    for _ in range(ctx.pick(600, 6000)):
        v = rval(rng, 3, other=.15)
        if v[0] != "x":
            vals.append(v)
    for d in (20, 80):
        v = ("i", -1)
        for j in range(d):
            v = ("l", [v]) if j % 2 else ("d", [(b"a", v)])
        vals.append(v)
    cases = distinct([dict(e="enc", fn="", val=js(v)) for v in vals])
    cases += large(ctx, rng, "C21")
    execute(ctx, cases, "C21")
