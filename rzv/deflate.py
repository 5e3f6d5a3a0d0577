"""C02-C06: parsing, rejecting, re-serialising, serialising, decompressing."""
import glob, json, os
from . import gen
from .gen import ref, Stream, rand_codes, rand_data, rand_stream, zlib_stream

SPEC = "DeflateTrace"


def repo_streams():
    """The DEFLATE parts of the gzip files in the repository's test data."""
    out = []
    for f in sorted(glob.glob("/repo/lib/tests/data/*gz")):
        b = open(f, "rb").read()
        at = gzip_body(b)
        if at is not None and len(b) < 60000:
            out.append((os.path.basename(f), b[at:]))
    return out


def gzip_body(b):
    """Where the DEFLATE data of a gzip file starts (None if the header is damaged)."""
    if b[:3] != b"\x1f\x8b\x08" or len(b) < 10 or b[3] & 0xe0:
        return None
    at, f = 10, b[3]
    if f & 4:
        at += 2 + int.from_bytes(b[at:at + 2], "little")
    for bit in (8, 16):
        if f & bit:
            i = b.find(b"\0", at)
            if i < 0:
                return None
            at = i + 1
    if f & 2:
        at += 2
    return at if at <= len(b) else None


class Cases(list):
    def __init__(self, op):
        self.op, self.seen = op, set()

    def put(self, id, **kw):
        self.append(dict(id="%s%d" % (id, len(self)), op=self.op, **kw))


def tail(r):
    return bytes(r.randrange(256) for _ in range(r.choice([0, 0, 1, 8, 9])))


def history(r, n):
    """Blocks' worth of pseudo-random history, as stored blocks."""
    s = Stream(r)
    while n:
        k = min(n, 65535)
        s.stored(bytes(r.randrange(256) for _ in range(k)))
        n -= k
    return s


def huge_codes(r, n, have):
    """n codes, mostly literals: more of them in one block than sixteen bits count."""
    out = []
    while len(out) < n:
        if have > 300 and r.random() < 0.05:
            out.append(ref(r.choice([3, 4, 9, 20]), r.choice([1, 2, 9, have, 32768, r.randint(1, 300)])))
            if out[-1] & 65535 > have:
                out[-1] = r.randrange(256)
        else:
            out.append(r.choice([0, 65, 66, 127, 128, 255]))
        have = min(32768, have + (out[-1] >> 16 or 1))
    return out


def huge_streams(r):
    """Streams with a block of more than 65536 codes, fixed and dynamic."""
    for i in range(2):
        s = Stream(r)
        s.stored(r.randbytes(5))
        cs = huge_codes(r, r.choice([65535, 65536, 65537, 66000 + r.randrange(5000)]), 5)
        (s.fixed if i else s.dynamic)(cs)
        s.fixed([65], True)
        yield s.bytes()


def many_blocks(r, n):
    """n blocks of next to nothing, and a last one."""
    s = Stream(r)
    w = s.w
    s.fixed([67, 68, 69])
    for i in range(n):
        k = r.randrange(40)
        if k == 0:
            s.stored(r.randbytes(r.choice([0, 1])))
        elif k == 1:
            s.fixed([ref(3, 2)])
        else:
            w.b += [0, 1, 0]
            if k < 9:
                w.code(0x30 + 60 + k, 8)
                s.have += 1
            w.b += [0] * 7
    s.fixed([ref(5, 3), 70], True)
    return s.bytes()


MANY = 65536 + 40


def edge_codes():
    """Every length symbol and distance symbol at both ends of its range."""
    out = [ref(n, 1) for n in range(3, 259)]
    out += [ref(3, d) for d in gen.EDGE_DIST]
    out += [ref(n, d) for n in (3, 10, 11, 130, 131, 257, 258) for d in (1, 2, 4, 5, 6144, 16385, 24576, 24577, 32767, 32768)]
    return out


def valid_streams(ctx, n, out, odd=False, **kw):
    r = ctx.rng
    for name, b in repo_streams():
        out.put("repo/" + name + "/", inp=b.hex(), **kw)
    for _ in range(n):
        k = r.randrange(10)
        if k < 5:
            b = rand_stream(r, size=r.choice([5, 30, 80]), odd=odd and r.random() < 0.5)
        elif k < 9:
            b = zlib_stream(r, rand_data(r, r.choice([0, 1, 20, 200, 600])), flushes=r.choice([0, 0, 1, 3]))
        else:
            b = rand_stream(r, blocks=r.choice([7, 12]), size=4)
        out.put("rand", inp=(b + tail(r)).hex(), **kw)
    # all lengths and the ends of all distance ranges, in fixed and dynamic blocks
    for i in range(4):
        s = Stream(r)
        cs = edge_codes()
        r.shuffle(cs)
        if i % 2:
            s.dynamic(cs, True, deep=None) if False else s.dynamic(cs, True)
        else:
            s.fixed(cs, True)
        out.put("edges", inp=s.bytes().hex(), **dict(kw, do="r"))
    for _ in range(ctx.pick(40, 400)):
        s = Stream(r)
        s.stored(b"abc")
        for cs, t, kw2 in siblings(r, r.choice([2, 3, 5]), s.have):
            s.dynamic(cs, tables=t, **kw2)
        s.fixed([65], True)
        out.put("siblings", inp=(s.bytes() + tail(r)).hex(), **kw)
    for b in lone_streams(r):
        out.put("lone", inp=(b + tail(r)).hex(), **kw)
    # tables about as long as they get: nearly every length written with seven bits
    s = Stream(r)
    for i in range(3):
        cs = rand_codes(r, 20, s.have)
        t = gen.tables_for(r, cs, full=True, deep=True)
        used = sorted(set(t[0][:286] + (t[1] + [0] * 30)[:30]))
        clens = [7 if k in used else 0 for k in range(19)]
        rest = [k for k in range(19) if not clens[k]]
        free = 128 - len(used)      # of the seven-bit codes, for symbols that are not used
        for k in rest:
            n = next(n for n in range(1, 8) if 128 >> n <= free) if free else 0
            clens[k] = n
            free -= 128 >> n if n else 0
        if not free:
            s.dynamic(cs, tables=t, style=0, hlit=286, hdist=30, clens=clens)
    s.fixed([65], True)
    out.put("longtables", inp=(s.bytes() + tail(r)).hex(), **kw)
    # tables: many codes, deep codes, every way to describe them
    for i in range(ctx.pick(12, 100)):
        s = Stream(r)
        s.stored(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 40]))))
        cs = rand_codes(r, 40, s.have)
        s.dynamic(cs, False, tables=gen.tables_for(r, cs, full=True, deep=i % 2 == 0), style=i % 3)
        s.dynamic(cs[:1] if cs[0] < 256 else [65], True)
        out.put("tables", inp=s.bytes().hex(), **kw)


def siblings(r, n, have):
    """Blocks whose tables are the same lengths in another order, described in as many bits:
    [(codes, tables, how they are described)]."""
    first = rand_codes(r, r.choice([3, 10, 30]), have)
    ll, dl = gen.tables_for(r, first, full=r.random() < 0.3)
    hlit, hdist = r.choice([286, max([i for i, x in enumerate(ll) if x]) + 1]), r.choice([30, max([i for i, x in enumerate(dl) if x] + [0]) + 1])
    used = sorted(set(ll[:hlit] + dl[:hdist]))
    rest = [k for k in range(19) if k not in used]
    clens = gen.lens_for(r, used + rest[:max(0, 2 - len(used))], 19, 7)
    kw = dict(style=0, hlit=hlit, hdist=hdist, clens=clens)
    out = [(first, (ll, dl), kw)]
    while len(out) < n:
        ll, dl = list(ll), list(dl)
        for _ in range(r.choice([1, 1, 2, 20])):
            t = dl if r.random() < 0.3 else ll
            ok = [i for i, x in enumerate(t) if x]
            if r.random() < 0.6:
                ok = ok[-r.choice([2, 4]):]     # late ones
            if len(ok) > 1:
                i, j = r.sample(ok, 2)
                t[i], t[j] = t[j], t[i]
        lits = [i for i in range(256) if ll[i]]
        cs = list(first) if r.random() < 0.5 else [r.choice(lits) for _ in range(5)] if lits else []
        out.append((cs, (ll, dl), kw))
    return out


def lone_streams(r):
    """Tables with a single distance code, each symbol in turn, used and not used."""
    s = Stream(r)
    s.stored(r.randbytes(32768))
    for sym in range(31):
        for use in (0, 1) if sym < 30 else (0,):
            dl = [0] * 32
            dl[sym] = 1
            ds = (gen.DBASE[sym], gen.DBASE[sym] + (1 << gen.DEXTRA[sym]) - 1) if use else ()
            cs = [65] + [ref(r.choice([3, 7, 258]), d) for d in ds] + [66]
            ll = gen.tables_for(r, cs)[0]
            s.dynamic(cs, tables=(ll, dl), hdist=r.choice([sym + 1, sym + 1, min(32, sym + 2), 30, 31, 32]) if sym < 29 else r.randint(sym + 1, 32))
    s.fixed([67], True)
    yield s.bytes()


def spec_cases(ctx, out):
    """Behaviours enumerated by TLC from the encoder specification."""
    m = ctx.model("CodecMC", ctx.pick("CodecMC.cfg", "CodecMC_deep.cfg"))
    cases = [json.loads(p[5:]) for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("streams_enumerated_by_tlc", len(cases))
    if not cases:
        raise RuntimeError("no cases from the model")
    for c in cases:
        out.append((c["inp"], c["blocks"]))
    return out


def blocks_text(blocks):
    t = []
    for b in blocks:
        if b[0] == 0:
            t.append("0:" + bytes(b[1]).hex())
        else:
            t.append("1:" + ",".join(map(str, b[1])))
    return ";".join(t)


def c02(ctx):
    out = Cases("codec")
    for inp, _ in spec_cases(ctx, []):
        out.put("tlc", inp=(bytes(inp) + b"\xa5\xff").hex(), do="n")
    valid_streams(ctx, ctx.pick(1800, 20000), out, odd=True, do="n")
    r = ctx.rng
    for n in (65535, 32768, 256, 255):
        s = Stream(r)
        s.fixed([r.randrange(256)])
        s.stored(bytes(r.randrange(256) for _ in range(n)), True)
        out.put("big", inp=(s.bytes() + b"\1\2").hex(), do="n")
    for b in huge_streams(r):
        out.put("huge", inp=(b + b"\1\2").hex(), do="n")
    out.put("blocks", inp=(many_blocks(r, MANY) + b"\1").hex(), do="n")
    # more than a million codes, of a bit or two
    s = Stream(r)
    ll, dl = [0] * 288, [0] * 32
    ll[97], ll[98], ll[256], ll[257], dl[0] = 1, 2, 4, 3, 1
    ll[99] = 4
    cs = [97] * 40 + r.choices([97, 98, ref(3, 1)], (16, 2, 1), k=(1 << 20) + r.randrange(50000))
    s.dynamic(cs, tables=(ll, dl))
    s.fixed([65], True)
    out.put("million", inp=(s.bytes() + b"\1\2").hex(), do="n")
    ctx.sample(out, 3)
    ctx.validate(SPEC, ctx.harness(out), keep=lambda f: f["kind"] == "parse" and f["valid"])


def c03(ctx):
    r = ctx.rng
    out = Cases("codec")
    for a in range(256):
        out.put("one", inp="%02x" % a, do="n")
    out.put("none", inp="", do="n")
    for _ in range(ctx.pick(1500, 65536)):
        out.put("two", inp="%04x" % r.randrange(65536), do="n")
    for _ in range(ctx.pick(1500, 20000)):
        n = r.choice([3, 3, 4, 5, 8, 20, 60])
        b = bytearray(r.randrange(256) for _ in range(n))
        if r.random() < 0.8:
            b[0] = b[0] & 0xf8 | r.choice([2, 3, 4, 5, 4, 5])
        out.put("noise", inp=bytes(b).hex(), do="n")
    for _ in range(ctx.pick(2200, 20000)):
        w, b = gen.bad_stream(r)
        out.put("bad-" + w + "-", inp=b.hex(), do="n")
    for _ in range(ctx.pick(1200, 15000)):
        b = rand_stream(r, size=8) if r.random() < 0.5 else zlib_stream(r, rand_data(r, 60))
        out.put("mut", inp=gen.mutate(r, b).hex(), do="n")
    # one stream of each shape, cut at every byte
    for _ in range(ctx.pick(10, 60)):
        b = rand_stream(r, blocks=3, size=12)[:400]
        for i in range(len(b)):
            out.put("cut", inp=b[:i].hex(), do="n")
    ctx.sample(out[2000:], 3)
    ctx.validate(SPEC, ctx.harness(out, stall=15), keep=lambda f: f["kind"] == "parse" and not f["valid"])


KNOWN_258 = "odd258"


def c04(ctx):
    r = ctx.rng
    out = Cases("codec")
    for inp, _ in spec_cases(ctx, []):
        out.put("tlc", inp=bytes(inp).hex(), do="r")
    valid_streams(ctx, ctx.pick(1500, 15000), out, do="r")
    for n in (65535, 32768, 257, 256, 255, 0):
        for lead in range(0, 3):
            s = Stream(r)
            for _ in range(lead):
                s.fixed([r.randrange(144, 256)])
            s.stored(bytes(r.randrange(256) for _ in range(n)), True)
            out.put("stored", inp=s.bytes().hex(), do="r")
    for b in huge_streams(r):
        out.put("huge", inp=b.hex(), do="r")
    out.put("blocks", inp=many_blocks(r, MANY).hex(), do="r")
    # length 258 written as symbol 284 with 31: the known finding, and nothing else about it
    odd = []
    for i in range(ctx.pick(24, 200)):
        s = Stream(r)
        s.stored(b"abc")
        cs = rand_codes(r, 6, s.have) + [ref(258, 1)] + rand_codes(r, 3, s.have)
        if i % 3 == 0:
            s.fixed(cs, True, odd=True)
        else:
            t = gen.tables_for(r, cs, odd=True)
            s.dynamic(cs, True, odd=True, tables=t)
        out.put("odd", inp=s.bytes().hex(), do="r")
    ctx.sample(out[-80:], 3)
    path = ctx.harness(out)
    fails = ctx.validate(SPEC, path, keep=lambda f: f["kind"] == "recode")
    odd = [f for f in fails if f["why"] == KNOWN_258]
    ctx.known("length 258 written as symbol 284 with extra bits 31 is re-serialised as symbol 285",
              odd, KNOWN_258)
    # what was written instead must at least be a stream of the same blocks
    ids = {f["id"] for f in odd}
    again = Cases("codec")
    recs = {}
    if ids:
        for line in open(path):
            d = json.loads(line)
            if d["id"] in ids and d["rst"] == "ok":
                again.put("re", inp=bytes(d["rec"]).hex(), do="r")
                recs[again[-1]["id"]] = d["blocks"]
    if again:
        p2 = ctx.harness(again)
        ctx.validate(SPEC, p2, keep=lambda f: True)
        for line in open(p2):
            d = json.loads(line)
            if d["blocks"] != recs[d["id"]]:
                ctx.fail(d["id"], "recode", "re-serialised stream has other blocks")


def c05(ctx):
    r = ctx.rng
    out = Cases("encode")
    for _, blocks in spec_cases(ctx, []):
        if all(b[0] != 2 for b in blocks):
            out.put("tlc", blocks=blocks_text(blocks), do="n")
    # every length with every end of a distance range, every distance with some length
    every = [ref(n, d) for n in range(3, 259) for d in (1, 32768)]
    every += [ref(3 + d % 256, d) for d in range(1, 32769, ctx.pick(5, 1))]
    every += [ref(n, d) for n in gen.EDGE_LEN for d in gen.EDGE_DIST]
    every += [ref(258, d) for d in gen.EDGE_DIST]
    r.shuffle(every)
    k = 400
    for i in range(0, len(every), k):
        out.put("every", blocks="1:" + ",".join(map(str, every[i:i + k])), do="n")
    for _ in range(ctx.pick(900, 10000)):
        t = []
        have = 0
        for _ in range(r.choice([1, 1, 2, 4])):
            q = r.randrange(5)
            if q == 0:
                d = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 255, 256, 257])))
                t.append("0:" + d.hex())
                have += len(d)
                continue
            cs = [r.choice(every) if r.random() < 0.5 else r.randrange(256) for _ in range(r.choice([0, 1, 5, 30]))]
            if q < 3:
                t.append("1:" + ",".join(map(str, cs)))
            else:
                bits = gen.table_bits(r, *gen.tables_for(r, cs))
                t.append("2:" + "".join(map(str, bits)) + ":" + ",".join(map(str, cs)))
        out.put("rand", blocks=";".join(t), do="n")
    for _ in range(ctx.pick(60, 600)):
        t = []
        for cs, tb, kw in siblings(r, r.choice([2, 3, 5]), 40000):
            t.append("2:" + "".join(map(str, gen.table_bits(r, *tb, **kw))) + ":" + ",".join(map(str, cs)))
        out.put("siblings", blocks=";".join(t), do="n")
    for n in (65535, 65534, 32768):
        out.put("huge", blocks="1:65,66;1:" + ",".join(map(str, huge_codes(r, n + 3, 2))), do="n")
        out.put("big", blocks="1:65;0:" + bytes(r.randrange(256) for _ in range(n)).hex() + ";0:", do="n")
    ctx.sample(out[-500:], 3)
    ctx.validate(SPEC, ctx.harness(out), keep=lambda f: f["kind"] == "parse")


def c06(ctx):
    r = ctx.rng
    out = Cases("codec")
    for inp, _ in spec_cases(ctx, []):
        out.put("tlc", inp=bytes(inp).hex(), do="d")
    for name, b in repo_streams():
        out.put("repo/" + name, inp=b.hex(), do="d")
    for _ in range(ctx.pick(1600, 20000)):
        s = Stream(r)
        n = r.choice([1, 2, 3, 4])
        pend = r.choice([0, 0, 0.02, 0.2])
        for i in range(n):
            if r.random() < 0.3:
                s.stored(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 30]))), i == n - 1)
            else:
                cs = rand_codes(r, r.choice([1, 5, 25]), s.have, pend=pend)
                (s.fixed if r.random() < 0.7 else s.dynamic)(cs, i == n - 1)
        cap = r.choice([32768, 32768, 65535, 1, 2, 3, 7, 100, 300])
        out.put("rand", inp=s.bytes().hex(), do="d", wcap=cap)
    for _ in range(ctx.pick(300, 3000)):
        d = rand_data(r, r.choice([50, 400, 1500]))
        out.put("zlib", inp=zlib_stream(r, d, level=r.randint(1, 9), flushes=r.choice([0, 2])).hex(), do="d")
    # around the full 32 KiB window, overlapping and not, reaching across blocks
    for i in range(ctx.pick(6, 40)):
        have = r.choice([32767, 32768, 32769, 40000, 65535, 65536 + r.randrange(300)])
        s = history(r, have)
        cs = []
        for d in (32768, 32767, 32766, 1, 2, 257, 258, 259, 16384, min(have, 32768)):
            if d <= s.have:
                cs.append(ref(r.choice([3, 258, r.randint(3, 258)]), d))
            if r.random() < 0.5:
                cs.append(r.randrange(256))
        r.shuffle(cs)
        if i % 3 == 2:
            cs.append(ref(5, 32768))
        s.fixed(cs[:5])
        s.dynamic(cs[5:], True)
        out.put("window", inp=s.bytes().hex(), do="d", wcap=r.choice([32768, 32768, 32767, 33000]))
    for b in huge_streams(r):
        out.put("huge", inp=b.hex(), do="d")
    out.put("blocks", inp=many_blocks(r, MANY).hex(), do="d")
    # literals only for a long while, then references to among them
    for n in ([65536 + r.randrange(20000), 33000 + r.randrange(30000)] if ctx.pick(1, 0) else [40000, 65536, 70000, 90000, 131072, 140000]):
        s = Stream(r)
        few = r.sample(range(144), 40)
        cs = [r.choice(few) for _ in range(n)]
        for _ in range(30):
            cs += [ref(r.choice([3, 5, 20]), r.choice([1, 32768, r.randint(1, 32768), min(32768, n % 65536 + r.randint(1, 500))]))]
            cs += [r.choice(few)] * r.choice([0, 1])
        (s.fixed if r.random() < 0.5 else s.dynamic)(cs)
        s.fixed([ref(4, 32768)], True)
        out.put("literals", inp=s.bytes().hex(), do="d")
    # long stored blocks, and histories of any length
    for i in range(ctx.pick(8, 60)):
        s = Stream(r)
        n = r.choice([1, 2, 3])
        for k in range(n):
            if r.random() < 0.3:
                s.fixed(rand_codes(r, 20, s.have), k == n - 1)
            else:
                s.stored(r.randbytes(r.choice([300, 32767, 32768, 32769, 40000, 65535])), k == n - 1)
        out.put("stored", inp=s.bytes().hex(), do="d", wcap=r.choice([65535, 65535, 50000, 40000, 32769, 32768, 100]))
    for c in out:
        c["wanth"] = 1
        c["pc"] = r.choice([0, 0, 1, 2, 7, 1000]) if not c["id"].startswith("literals") else 0
    ctx.sample(out[-400:], 3)
    ctx.validate(SPEC, ctx.harness(out), keep=lambda f: f["kind"] == "decompress")
