"""C21: bit vectors, bit writer and reader. C22: the hashing filters."""
import hashlib, json
from .deflate import Cases
from .gen import KINDS


def stack_ops(r, n, have):
    ops = []
    mode = r.randrange(4)
    bits = [0] * have                     # only the number matters here
    for _ in range(n):
        q = r.random()
        up = (0.5, 0.7, 0.35, 0.5)[mode]
        if q < up:
            ops.append(r.choice("+-"))
            bits.append(0)
        elif q < 0.85:
            if r.random() < 0.2:
                ops.append("b")
                if len(bits) >= 8:
                    del bits[-8:]
            else:
                ops.append("p")
                if bits:
                    bits.pop()
        elif q < 0.93 and bits:
            ops.append("g%d" % r.choice([0, len(bits) - 1, r.randrange(len(bits))]))
        else:
            ops.append(r.choice("lir"))
    return ops


def with_compare(r, ops, init):
    """Comparisons with the bits that should be there, and with near misses."""
    v = [b >> i & 1 for b in init for i in range(8)]
    out = []
    for o in ops:
        out.append(o)
        if o in "+-":
            v.append(1 if o == "+" else 0)
        elif o == "p" and v:
            v.pop()
        elif o == "b" and len(v) >= 8:
            del v[-8:]
        if r.random() < 0.25:
            w = list(v)
            k = r.randrange(5)
            if k == 0 and w:
                w[r.randrange(len(w))] ^= 1
            elif k == 1:
                w.append(0)
            elif k == 2 and w:
                w.pop()
            out.append("q" + "".join(map(str, w)))
    return out


def bitio_ops(r, n):
    ops = []
    for _ in range(n):
        q = r.randrange(8)
        if q < 2:
            ops.append("b%d" % r.randrange(2))
        elif q < 4:
            k = r.choice([0, 1, 2, 5, 7, 8, 9, 13, 15, 16, 16])
            x = r.choice([0, (1 << k) - 1, r.randrange(1 << k), r.randrange(1 << k), (1 << k) >> 1])
            ops.append("v%d:%d" % (k, x))
        elif q < 6:
            k = r.choice([0, 1, 3, 8, 9, 17, 70])
            ops.append("s" + "".join(r.choice("01") for _ in range(k)))
        elif q == 6:
            ops.append("a")
        else:
            k = r.choice([0, 1, 2, 3, 255, 256, 257]) if r.random() < 0.9 else r.choice([4000])
            ops.append("d" + bytes(r.randrange(256) for _ in range(k)).hex())
    return ops


def c21(ctx):
    r = ctx.rng
    m = ctx.model("BitStackMC", ctx.pick("BitStackMC.cfg", "BitStackMC_deep.cfg"))
    scripts = [p[5:] for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("call_sequences_enumerated_by_tlc", len(scripts))
    if len(scripts) > ctx.pick(4000, 40000):
        scripts = r.sample(scripts, ctx.pick(4000, 40000))
    out = Cases("bits")
    for s in scripts:
        init, ops = s.rsplit(" ", 1)
        init = bytes(json.loads(init.replace("<<", "[").replace(">>", "]")))
        ops = [o for o in ops.split(",") if o]
        out.put("tlc", init=init.hex(), ops=",".join(with_compare(r, ops, init) + ["i", "l"]))
    for _ in range(ctx.pick(6000, 50000)):
        init = bytes(r.randrange(256) for _ in range(r.choice([0, 0, 0, 1, 2, 4])))
        ops = stack_ops(r, r.choice([4, 15, 40, 100]), 8 * len(init))
        out.put("rand", init=init.hex(), ops=",".join(with_compare(r, ops, init) + ["i", "l"]))
    for n in (8191, 8192, 8193):          # more bits than sixteen bits count
        init = r.randbytes(n)
        ops = ["l"] + ["g%d" % i for i in (0, 65527, 65534, 65535, 65536, 65543, 8 * n - 1, 32768) if i < 8 * n]
        for _ in range(40):
            ops += [r.choice("+-pb"), r.choice("+-"), "l"]
        ops += ["g65000", "g%d" % r.randrange(65000), "i", "b", "p", "i", "l"]
        out.put("long", init=init.hex(), ops=",".join(ops))
    ctx.sample(out[-3000:], 2)
    ctx.validate("BitStackTrace", ctx.harness(out))
    out = Cases("bitio")
    for k in range(0, 17):          # every width at every offset, telling values
        for off in range(8):
            t = []
            for x in sorted({0, 1 % (1 << k), (1 << k) - 1, (1 << k) >> 1, (0x5555 & ((1 << k) - 1)), 0xaaaa & ((1 << k) - 1)}):
                t += ["s" + "1" * off] * (off > 0) + ["v%d:%d" % (k, x), "a"]
            out.put("width", ops=",".join(t))
    for _ in range(ctx.pick(6000, 50000)):
        out.put("rand", ops=",".join(bitio_ops(r, r.choice([1, 3, 10, 25]))))
    for off in (0, 3):
        out.put("long", ops=("s" + "1" * off + "," if off else "") + "s" + "".join(r.choice("01") for _ in range(66000)) + ",a,v16:4660,b1")
    out.put("long", ops="b1,d" + bytes(r.randrange(256) for _ in range(65535)).hex())
    ctx.sample(out[-3000:], 2)
    ctx.validate("BitIOTrace", ctx.harness(out))


def c22(ctx):
    r = ctx.rng
    out = Cases("filter")
    for i in range(ctx.pick(9000, 60000)):
        n = r.choice([0, 1, 5, 63, 64, 111, 112, 127, 128, 129, 255, 256, 300, 300])
        if i % 50 == 0:
            n = r.choice([1000, 1500])
        data = bytes(r.randrange(256) for _ in range(n))
        ops, left = [], n + 3
        for _ in range(r.choice([0, 1, 2, 5, 20])):
            kind = r.choice(["one", "one", "vec", "all"] + (["end", "rest", "bytes"] if i % 2 == 0 else ["fmt", "flush"]))
            ops.append("%s.%d" % (kind, r.choice([0, 1, 2, 7, 64, 128, n, n + 1, left, r.randint(0, n + 1)])))
        if any(o.startswith("fmt") for o in ops):
            data = bytes(b & 127 for b in data)
        intr = r.choice([0, 0, 0, 1, 2, 3, 0 if r.random() < 0.7 else r.choice([5002, 20002, 70003])])
        if intr == 1 and not all(o[:3] in ("one", "vec", "flu") for o in ops):
            intr = 2        # whoever retries needs a chance
        plan = "%d:%d:%d:%s" % (r.choice([0, 0, 1, 2, 5, 64, 127, 10000000 + r.choice([2, 7, 130])]), 0 if intr == 1 and r.random() < 0.9 else intr,
                                r.choice([-1, -1, -1, 0, n, r.randint(0, n + 1)]), r.choice(KINDS + "zzz")) + r.choice(["", ":1"])
        out.put("rand", inp=data.hex(), ops=",".join(ops), dir="rw"[i % 2], rp=plan)
    ctx.sample(out, 3)
    # calls that move a lot at once
    for i in range(ctx.pick(16, 80)):
        n = r.choice([4096, 16384, 32768, 65535, 65536, 65537, 70000, 131073])
        data = r.randbytes(r.choice([n, n + 1, n + 500]))
        kinds = ["one", "vec", "all"] + ([["end", "rest"], []][i % 2])
        ops = ["%s.%d" % (r.choice(kinds), m) for m in r.choice([[n], [n], [1, n], [n, 300], [n // 2, n]])]
        plan = "%d:0:%d:%s" % (r.choice([0, 0, 0, 65536, n - 1, 10000000 + n]), r.choice([-1, -1, -1, n - 1, 4096, n // 2]), r.choice(KINDS + "zzz")) + r.choice(["", ":1"])
        out.put("large", inp=data.hex(), ops=",".join(ops), dir="rw"[i % 2], rp=plan)
    for i in range(ctx.pick(2, 12)):
        n = (1 << 20) + r.choice([0, 0, 1, 5000, 1 << 20])
        ops = ["%s.%d" % (r.choice(["one", "one", "vec"]) if i > 1 else "one", m) for m in (n + 70000, 300)]
        out.put("huge", inp=r.randbytes(n).hex(), ops=",".join(ops), dir="rw"[i % 2],
                rp="0:0:%d:%s" % (r.choice([-1, 1 << 20]) if i > 1 else 1 << 20, r.choice(KINDS)) + ":1")
    path = ctx.harness(out)
    new = ctx.tmp("hashed.ndjson")
    with open(new, "w") as f:
        for line in open(path):
            d = json.loads(line)
            b = bytes(d["inp"])
            d["at"] = sorted({0, len(d["passed"]), len(b)})
            d["sha"] = [hashlib.sha512(b[:n]).hexdigest() for n in d["at"]]
            f.write(json.dumps(d, separators=(",", ":")) + "\n")
    ctx.validate("FilterTrace", new)
