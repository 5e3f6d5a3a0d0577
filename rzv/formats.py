"""C10, C11: serialised metadata. C15: the gzip header."""
import json, struct
from . import gen
from .deflate import Cases
from .gen import KINDS, ref

FULL = 32767


def scaled(entries):
    """The model's runs, in which a full word says 3, as runs in which it says 32767."""
    out = []
    for e in entries:
        if e < 0:
            full, rest = (-e - 1) // 3, -e - 3 * ((-e - 1) // 3)
            e = -(full * FULL + (rest if rest < 3 else FULL))
        out.append(e)
    return out


def model_entries(ctx):
    m = ctx.model("TraceFormatMC", ctx.pick("TraceFormatMC.cfg", "TraceFormatMC_deep.cfg"))
    es = [json.loads(p[5:].replace("<<", "[").replace(">>", "]")) for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("entry_sequences_enumerated_by_tlc", len(es))
    return [scaled(e) for e in es]


def rand_entries(r, n, long_ok=True):
    out = []
    for _ in range(n):
        k = r.randrange(5)
        if k == 0:
            out.append(0)
        elif k < 3:
            d = r.choice([1, 2, 255, 256, 257, 32767, 32768, r.randint(1, 32768), r.randint(1, 32768)])
            out.append(ref(r.choice([3, 4, 258, 257, r.randint(3, 258)]), d))
        elif not out or out[-1] >= 0:
            m = r.choice([1, 2, 3, 10, 255, 256, 257, 1000])
            if long_ok and r.random() < 0.1:
                m = r.choice([32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 98301, 98302, 131071])
            out.append(-m)
    return out


def text(es):
    return ",".join(map(str, es))


def c10(ctx):
    r = ctx.rng
    out = Cases("tfw")
    out.put("none", tr="")
    es = model_entries(ctx)
    for e in (es if len(es) < 3000 else r.sample(es, 3000)):
        out.put("tlc", tr=text(e))
    # every word there is: every run one word can say, every distance, every length
    step = ctx.pick(16, 1)
    runs = list(range(1, FULL + 2, step))
    for i in range(0, len(runs), 60):
        t = []
        for n in runs[i:i + 60]:
            t += [-n, r.choice([0, ref(3, 1)])]
        out.put("runs", tr=text(t))
    every = [ref(3 + d % 256, d) for d in range(1, 32769, ctx.pick(3, 1))] + [ref(n, d) for n in range(3, 259) for d in (1, 256, 32768)]
    for i in range(0, len(every), 500):
        out.put("refs", tr=text(every[i:i + 500]))
    for n in [FULL * k + j for k in range(1, ctx.pick(5, 40)) for j in (-2, -1, 0, 1, 2)]:
        far = [ref(3 + d % 256, 1 + d) for d in range(0, 32768, 16)]
        for lead in ([], [0], [ref(4, 7)]) + ((far,) if n < 2 * FULL else ()):
            out.put("long", tr=text(lead + [-n] + r.choice([[], [0]])))
    for _ in range(ctx.pick(6000, 40000)):
        out.put("rand", tr=text(rand_entries(r, r.choice([1, 2, 5, 30, 100]))))
    ctx.sample(out[-3000:], 3)
    ctx.validate("FormatTrace", ctx.harness(out), cfg="FormatTrace.cfg")


def written(es, r=None):
    """The bytes of entries; with r, runs are cut into words at random."""
    b = b""
    for e in es:
        if e == 0:
            b += b"\0\0"
        elif e > 0:
            b += struct.pack("<HB", e & 65535, (e >> 16) - 3)
        else:
            n = -e
            while n:
                k = min(n, FULL)
                if r and r.random() < 0.5:
                    k = r.randint(1, k)
                b += struct.pack("<H", 32768 + k)
                n -= k
    return b


def c11(ctx):
    r = ctx.rng
    out = Cases("tfr")
    out.put("none", inp="")
    for a in range(256):
        out.put("one", inp="%02x" % a)
    for w in range(0, 65536, ctx.pick(7, 1)):
        out.put("two", inp=struct.pack("<H", w).hex())
    es = model_entries(ctx)
    for e in (es if len(es) < 1200 else r.sample(es, 1200)):
        b = written(e)
        for i in range(len(b) + 1):
            out.put("tlc", inp=b[:i].hex())
    for _ in range(ctx.pick(4000, 40000)):
        n = r.choice([3, 4, 5, 6, 9, 30])
        b = bytearray(r.randrange(256) for _ in range(n))
        if r.random() < 0.7:            # short runs, so that more than two records matter
            for i in range(1, n, 2):
                b[i] &= r.choice([0x7f, 0x80, 0x81])
        out.put("noise", inp=bytes(b).hex())
    for _ in range(ctx.pick(4000, 40000)):
        b = written(rand_entries(r, r.choice([1, 3, 8]), r.random() < 0.1), r)
        cut = b[:r.randint(0, len(b))] if r.random() < 0.6 else b
        if r.random() < 0.5:
            out.put("cut", inp=cut.hex())
        else:
            out.put("fault", inp=b.hex(), rp="%d:0:%d:%s" % (r.choice([0, 1, 2]), r.randint(0, len(b)), r.choice(KINDS)))
    ctx.sample(out[-3000:], 3)
    ctx.validate("FormatTrace", ctx.harness(out, stall=20), cfg="FormatTrace.cfg")


def c15(ctx):
    r = ctx.rng
    out = Cases("gzhdr")
    m = ctx.model("GzipHeaderMC", ctx.pick("GzipHeaderMC.cfg", "GzipHeaderMC_deep.cfg"))
    cases = [json.loads(p[5:]) for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("headers_enumerated_by_tlc", len(cases))
    for c in (cases if len(cases) < 12000 else r.sample(cases, 12000)):
        out.put("tlc", inp=bytes(c).hex())
    for f in range(256):
        h = gen.header(r, f & 31)
        out.put("flags", inp=(h[:3] + bytes([f]) + h[4:] + b"\3\0rest").hex())
    for i in range(3):
        for v in range(256):
            h = bytearray(gen.header(r, r.choice([0, 8])))
            h[i] = v
            out.put("fixed", inp=(bytes(h) + b"\3\0").hex())
    # the fields' lengths, contents with and without zero bytes, and what follows
    for n in [0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 4096, 65535] + [r.randrange(65536) for _ in range(ctx.pick(10, 200))]:
        for f in (4, 4 | 8, 4 | 2, 31):
            h = gen.header(r, f, extra=bytes(r.randrange(256) for _ in range(n)))
            out.put("extra", inp=(h + b"\3\0").hex())
            out.put("extra", inp=h[:r.randrange(len(h))].hex())
    for n in [0, 1, 255, 256, 1000, 5000, 32768, 65535, 65536, 70000, 140000]:
        for f in (8, 16, 24, 26) if n < 60000 else (8 + 16 * r.randrange(2), 16):
            t = bytes(r.randrange(1, 256) for _ in range(n))
            h = gen.header(r, f, name=t, comment=t[:7])
            out.put("text", inp=(h + b"\3\0").hex())
            out.put("text", inp=h[:-1].hex())
    for _ in range(ctx.pick(6000, 50000)):
        h = gen.header(r) + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5])))
        k = r.randrange(4)
        if k == 0:
            h = h[:r.randrange(len(h) + 1)]
        elif k == 1:
            h = gen.mutate(r, h)
        out.put("rand", inp=h.hex())
    for _ in range(ctx.pick(500, 5000)):
        b = bytes(r.randrange(256) for _ in range(r.choice([0, 3, 9, 10, 11, 40])))
        if r.random() < 0.7:
            b = b"\x1f\x8b\x08" + b
        out.put("noise", inp=b.hex())
    ctx.sample(out[-3000:], 3)
    ctx.validate("HeaderTrace", ctx.harness(out, stall=20))
