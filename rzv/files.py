"""Whole gzip files. C01: rebuilding. C16, C17: zero. C18: cat. C19: dump."""
import json
import zlib
from . import core, gen
from .deflate import Cases, gzip_body, MANY, huge_streams, many_blocks, repo_streams, spec_cases, history
from .gen import Stream, rand_codes, rand_data, rand_stream, ref, zlib_stream


def content_of(body):
    """(content, bytes used) of a DEFLATE stream, None if zlib rejects it or it is cut short."""
    d = zlib.decompressobj(-15)
    try:
        out = d.decompress(body) + d.flush()
    except zlib.error:
        return None
    return (out, len(body) - len(d.unused_data)) if d.eof else None


def lenient(body):
    """Whether zlib rejects a stream at something that the decoder behind 'zero' may let pass."""
    try:
        zlib.decompressobj(-15).decompress(body)
    except zlib.error as e:
        return int("too far back" in str(e) or "too many length" in str(e))
    return 0


def consumed(f):
    """Bytes of a gzip file up to the end of its DEFLATE data, None if zlib does not take it."""
    d = zlib.decompressobj(31)
    try:
        d.decompress(f)
    except zlib.error:
        return None
    return len(f) - len(d.unused_data) - 8 if d.eof else None


class Files(list):
    def __init__(self, cmd):
        self.cmd = cmd

    def put(self, id, inp, **kw):
        self.append(dict(id="%s%d" % (id, len(self)), cmd=self.cmd, inp=inp,
                         via="stdin" if len(self) % 2 else "file", **kw))


def gz(r, body, content=None, **kw):
    c = content_of(body)[0] if content is None else content
    return gen.header(r, **kw) + body + gen.trailer(c)


def some_body(r, size=40, pend=0.0):
    """A valid stream (with pend: maybe references before the start)."""
    k = r.randrange(4)
    if k == 0:
        return zlib_stream(r, rand_data(r, r.choice([0, 1, 30, 300, 1500])), flushes=r.choice([0, 0, 2]))
    if k == 1:
        return rand_stream(r, size=size)
    s = Stream(r)
    n = r.choice([1, 2, 3, 5])
    for i in range(n):
        q = r.randrange(4)
        if q == 0:
            s.stored(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 258, 300]))), i == n - 1)
        else:
            cs = rand_codes(r, r.choice([0, 1, size]), s.have, pend=pend)
            (s.fixed if q == 1 else s.dynamic)(cs, i == n - 1)
    return s.bytes()


def damaged(r, f, at):
    """A file whose header ends at `at`, damaged."""
    k = r.randrange(3)
    if k == 0:
        return f[:r.randrange(len(f) - 7)]          # never only the trailer
    if k == 1:
        return f[:at] + gen.mutate(r, f[at:at + 80]) + f[at + 80:]
    b = bytearray(f)
    b[r.randrange(min(len(b), at))] ^= 1 << r.randrange(8)
    return bytes(b)


def many(ctx, out, n, pend=0.0, bad=0.5):
    r = ctx.rng
    for name, b in repo_streams():
        if len(b) < 20000:
            c = content_of(b)
            if c and len(c[0]) < 100000:
                out.put("repo/" + name, gz(r, b[:c[1]], c[0]))
    for _ in range(n):
        if r.random() < bad:
            if r.random() < 0.4:
                w, b = gen.bad_stream(r)
                out.put("bad-" + w + "-", gen.header(r) + b)
                continue
            b = some_body(r, 15)
            h = gen.header(r)
            c = content_of(b)
            out.put("damaged", damaged(r, h + b + gen.trailer(c[0] if c else b""), len(h)))
        else:
            b = some_body(r, pend=pend)
            c = content_of(b)
            out.put("file", gen.header(r) + b + gen.trailer(c[0] if c else b""))


def tlc_files(ctx, out, n):
    r = ctx.rng
    cs = spec_cases(ctx, [])
    for inp, _ in (cs if len(cs) < n else r.sample(cs, n)):
        b = bytes(inp)
        c = content_of(b)
        out.put("tlc", gen.header(r, r.choice([0, 8])) + b + gen.trailer(c[0] if c else b""))


def c18(ctx):
    r = ctx.rng
    out = Files("cat")
    tlc_files(ctx, out, ctx.pick(600, 6000))
    many(ctx, out, ctx.pick(2200, 20000), pend=0.02)
    for _ in range(ctx.pick(6, 30)):
        b = some_body(r, 12)[:250]
        h = gen.header(r, r.choice([0, 8, 31]), extra=b"xyz", name=b"n", comment=b"c")
        for i in range(len(h + b)):
            out.put("cut", (h + b)[:i])
    for have in (32767, 32768, 32769, 65600, 140000):
        for bad in (0, 1):
            s = history(r, have)
            cs = [ref(258, min(have, 32768)), ref(3, min(32767, have)), r.randrange(256)]
            r.shuffle(cs)
            s.fixed(cs + ([ref(4, 32768)] if have >= 32768 else []), True)
            b = s.bytes()
            f = gz(r, b)
            out.put("far", f if not bad else f[:-8 - r.randint(1, 6)])
    for n in (70000, 300000, 1200000)[:ctx.pick(2, 3)]:     # from few codes; from many
        d = cuttable(r, n, r.choice(["const", "never"]))
        out.put("long", gz(r, zipped(r, d, 2), d))
    for b in huge_streams(r):
        out.put("huge", gz(r, b))
    out.put("blocks", gz(r, many_blocks(r, MANY)))
    if True:        # a reference just before the start, at all sizes of history up to the window
        for have in (0, 1, 2, 100, 1000, 20000, 32760, 32767):
            s = history(r, have)
            s.fixed([r.randrange(256), ref(r.choice([3, 258]), min(have + 2, 32768)), 65], True)
            out.put("early", gen.header(r) + s.bytes() + bytes(8))
    for c in out[::9]:
        if c["via"] == "stdin" and len(c["inp"]) < 3000:
            c["via"] = "drip"
    ctx.validate("CatTrace", ctx.record(ctx.cli_runs(out)))
    ctx.samples += ["%s %s %s" % (c["id"], c["via"], c["inp"].hex()[:300]) for c in r.sample(out, 3)]


def lines_of(out):
    s = out.decode("utf-8", "replace")
    ls = s.split("\n")
    if ls[-1] == "":
        ls.pop()
    else:
        ls[-1] += "<no newline>"
    return ["".join(ch if ord(ch) < 127 else "<%02x>" % ord(ch) for ch in l) for l in ls]


def c19(ctx):
    r = ctx.rng
    out = Files("dump")
    tlc_files(ctx, out, ctx.pick(600, 6000))
    for n in (255, 257, 300)[:ctx.pick(2, 3)]:
        s = Stream(r)
        for i in range(n):
            k = r.randrange(3)
            last = i == n - 1
            if k == 0:
                s.stored(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2]))), last)
            else:
                s.fixed([r.randrange(256)] * r.choice([0, 1]), last)
        out.put("blocks", gz(r, s.bytes()))
    many(ctx, out, ctx.pick(2000, 20000))
    s = Stream(r)
    s.fixed(list(range(256)))
    s.stored(bytes(1000))
    s.dynamic(list(range(255, -1, -1)) + [ref(n, d) for n in (3, 10, 257, 258) for d in (1, 256, 1200)])
    for n in (0, 9, 10, 99, 100, 65535):
        s.stored(bytes(n))
    s.fixed([ref(n, 1 + n * 127) for n in range(3, 259)], True)
    out.put("all", gz(r, s.bytes()))
    s = Stream(r)
    for _ in range(120):
        s.fixed([66])
    s.stored(b"", True)
    out.put("blocks", gz(r, s.bytes()))
    for b in huge_streams(r):
        out.put("huge", gz(r, b))
    out.put("blocks", gz(r, many_blocks(r, MANY)))
    for _ in range(ctx.pick(5, 30)):
        b = some_body(r, 12)[:250]
        h = gen.header(r, r.choice([0, 8]), name=b"n")
        for i in range(len(h + b)):
            out.put("cut", (h + b)[:i])
    runs = ctx.cli_runs(out)
    for c in runs:
        c["lines"] = lines_of(c.pop("out"))
    ctx.validate("DumpTrace", ctx.record(runs))
    ctx.samples += ["%s %s %s" % (c["id"], c["via"], c["inp"].hex()[:300]) for c in r.sample(out, 3)]


# -- zero ---------------------------------------------------------------------------------------
def cuttable(r, n, kind):
    """Content that cuts early, late, never."""
    if kind == "noise":
        return r.randbytes(n)
    if kind == "const":
        return bytes([r.choice([0, 0, 7, 255])]) * n
    if kind in ("never", "never2"):
        # any 8192 in a row have the same sum, which is no multiple of 4096
        p = bytearray(r.choice([0, 3]) for _ in range(8192))
        while sum(p) % 4096 == 0:
            p[r.randrange(8192)] ^= 1
        b = bytearray((bytes(p) * (n // 8192 + 1))[:n])
        if kind == "never2" and n > 9000:       # ... but at one place
            at = r.randint(8192, n - 1)
            need = -sum(b[at - 8192 + 1:at + 1]) % 4096
            for i in range(at, at - 200, -1):
                k = min(255 - b[i], need)
                b[i] += k
                need -= k
        return bytes(b)
    if kind == "steered":
        # byte by byte past every cut, through high and low sums, until the last stretch: a cut late
        # in a block, at a sum of 0 or of nearly the most there is
        b, total, low = bytearray(), 0, r.choice([[0, 1], [0, 1], [0, 1, 2], [254, 255]])
        edge = r.randint(8192, min(n, 60000)) if n > 8192 else n
        turn = r.randint(0, edge)
        for i in range(n):
            old = b[i - 8192] if i >= 8192 else 0
            v = low[0 if low[0] == 0 else -1] if i >= edge else r.choice(low if i >= turn else b"\x00\x03\x20\x7f\xff")
            if i < edge and i >= 8191 and (total + v - old) % 4096 == 0:
                v = v ^ 1
            b.append(v)
            total += v - old
        return bytes(b)
    if kind == "words":
        return rand_data(r, n, 2)
    raise ValueError(kind)


def zipped(r, d, kind=None):
    """A body with content d, cheap to decode for the specification."""
    k = r.randrange(3) if kind is None else kind
    if k == 0 or (k == 1 and len(zlib.compress(d)) > 12000):
        s, out, at = [], b"", 0
        while at < len(d) or not out:
            n = min(len(d) - at, r.choice([65535, 65535, 30000, 1]))
            at += n
            out += bytes([1 if at == len(d) else 0]) + n.to_bytes(2, "little") + (n ^ 65535).to_bytes(2, "little") + d[at - n:at]
        return out
    return zlib_stream(r, d, level=r.randint(1, 9))


EDGES = [8190, 8191, 8192, 8193, 8194, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 65535 + 8191, 65535 + 8192, 65535 + 8193,
         131069, 131070, 131071]


def cut_at(r, n):
    """n bytes of which a block is made: cut after the last one, not before."""
    if n < 8192:
        return r.randbytes(n)
    p = bytearray(r.choice([0, 0, 1, 1, 3, 90]) for _ in range(8192))
    need = r.randint(1, 100)
    while (sum(p) + need) % 4096:
        i = r.randrange(8192)
        p[i] = p[i] + 1 if p[i] < 120 else 0
    b = bytearray((bytes(p) * (n // 8192 + 1))[:n])
    if n < 65535:
        b[n - 1] += need
    return bytes(b)


def cuts_related(r):
    """Blocks whose lengths have much in common, the last of any length."""
    n = r.randint(8192, 32767)
    lens = [n]
    for _ in range(r.choice([1, 2, 3])):
        m = r.choice([n, n, n ^ 32768, n ^ 32768, n ^ 32768, n ^ 16384, n ^ (r.randrange(256) << 8), n + 32767, n + 1, (n & 255) << 8 | n >> 8, 65535, 32768, n ^ 65535,
                      8192, 65280, n & 0xff00])
        lens.append(m if 8192 <= m <= 65535 else n)
    lens[1:] = r.sample(lens[1:], len(lens) - 1)
    last = r.choice([0, 0, n & 255, n & 8191, r.randint(1, 8191), (n ^ 32768) & 8191])
    return b"".join(cut_at(r, m) for m in lens) + r.randbytes(last), lens


def zero_files(ctx, out, big):
    r = ctx.rng
    for n in EDGES + [r.randint(8000, 150000) for _ in range(big)]:
        for kind in ("noise", "const", "never", "never2", "words", "steered") if n < 20000 else r.sample(["noise", "const", "never", "never2", "steered"], 2):
            d = cuttable(r, n, kind)
            out.put("%s%d-" % (kind, n), gz(r, zipped(r, d, None if kind in ("const", "never") else 0), d), content=d)
    for _ in range(big):
        d, lens = cuts_related(r)
        out.put("cuts" + "-".join(map(str, lens)) + "-", gz(r, zipped(r, d, 0), d), content=d)


def judge_zero(ctx, out, kind):
    for c in out:
        c["lenient"] = 0
        if "content" not in c:
            at = gzip_body(c["inp"])
            d = content_of(c["inp"][at:]) if at is not None else None
            c["lenient"] = lenient(c["inp"][at:]) if at is not None else 0
            c["content"], c["zlib"] = (d[0], 1) if d else (b"", 0)
        else:
            c["zlib"] = 1
    runs = ctx.cli_runs(out)
    ctx.samples += ["%s %s %s" % (c["id"], c["via"], c["inp"].hex()[:300]) for c in ctx.rng.sample(out, 3)]
    fails = ctx.validate("ZeroTrace", ctx.record(runs), cfg="ZeroTrace.cfg",
                         keep=lambda f: f["kind"] == kind or f["why"] == "WITNESS")
    if any(f["why"] == "WITNESS" for f in fails):
        raise core.ToolError("driver and specification disagree on the content: %s" % fails[:3])
    return fails


def c16(ctx):
    r = ctx.rng
    out = Files("zero")
    cs = spec_cases(ctx, [])
    for inp, _ in r.sample(cs, min(len(cs), ctx.pick(600, 6000))):
        c = content_of(bytes(inp))
        if c:
            out.put("tlc", gz(r, bytes(inp), c[0], flags=r.choice([0, 8])), content=c[0])
    for name, b in repo_streams():
        c = content_of(b)
        if c and len(b) < 20000 and len(c[0]) < 100000:
            out.put("repo/" + name, gz(r, b[:c[1]], c[0]), content=c[0])
    for _ in range(ctx.pick(1200, 12000)):
        b = some_body(r)
        c = content_of(b)
        if c:
            out.put("file", gz(r, b, c[0]), content=c[0])
    for n in (0, 1, 2, 255, 256, 4096):
        d = r.randbytes(n)
        for k in (0, 2):
            for f in (0, 31):
                out.put("short", gz(r, zipped(r, d, k), d, flags=f), content=d)
    zero_files(ctx, out, ctx.pick(10, 120))
    # damage that zlib rejects too
    for _ in range(ctx.pick(900, 9000)):
        if r.random() < 0.5:
            w, b = gen.bad_stream(r)
            out.put("bad-" + w + "-", gen.header(r) + b)
            continue
        b = some_body(r, 15)
        h = gen.header(r)
        out.put("damaged", damaged(r, h + b + bytes(8), len(h)))
    for have in (0, 1, 100, 1000, 20000, 32767):
        s = history(r, have)
        s.fixed([r.randrange(256), ref(r.choice([3, 258]), min(have + 2, 32768)), 65], True)
        out.put("early", gen.header(r) + s.bytes() + bytes(8))
    fails = judge_zero(ctx, out, "zero")
    ctx.known("a reference to before the start of the content is not an error: zero bytes are made up",
              [f for f in fails if f["why"] == "badref"], "badref")


def c17(ctx):
    r = ctx.rng
    out = Files("zero")
    zero_files(ctx, out, ctx.pick(60, 400))
    # the same content after different beginnings
    for _ in range(ctx.pick(12, 80)):
        d = r.randbytes(r.randint(20000, 60000))
        for _ in range(2):
            e = r.randbytes(r.choice([1, 100, 8192, 9000])) + d
            out.put("shift", gz(r, zipped(r, e, 0), e), content=e)
    judge_zero(ctx, out, "cut")


def buffer_edges(r):
    """Files of which each field of what 'zero' prints is the one for which a line- or block-buffered
    standard output is written to."""
    def plain(n, d):
        # a header of n bytes without a line feed
        h = bytes([31, 139, 8, 8, 1, 2, 3, 4, 0, 3]) + bytes(r.randrange(97, 122) for _ in range(n - 11)) + b"\0"
        return h + zipped(r, d) + gen.trailer(d), d
    for n in range(1017, 1026):
        for d in (b"", b"q" * 3):
            yield plain(n, d)
    for n in range(992, 1008):
        yield plain(12, b"q" * n)
    for n in (10, 245, 2560, 8192):          # a line feed in a length, or in its complement
        yield plain(12, bytes(r.randrange(97, 122) for _ in range(n)))
    for _ in range(3):                      # and in a check sum
        while True:
            d = bytes(r.randrange(97, 122) for _ in range(20))
            if b"\n" in gen.trailer(d)[:4]:
                break
        yield plain(12, d)


# -- failing input and output -------------------------------------------------------------------
# EIO, EAGAIN, ENOMEM, EFBIG, ENOSPC, EPIPE, ECONNRESET, ETIMEDOUT, EDQUOT; and EBADF, EINVAL, ESTALE
WRITE_ERRORS = [5, 11, 12, 27, 28, 32, 104, 110, 122]
READ_ERRORS = [5, 9, 11, 12, 22, 104, 110, 116]


def c24(ctx):
    r = ctx.rng
    short = []
    for i in range(ctx.pick(5, 25)):
        if i == 0:
            s = Stream(r)
            s.fixed([65, 66, 67], True)           # no end of line
            b = s.bytes()
        elif i == 1:
            b = zlib_stream(r, b"line\n" * 12, flushes=1)
        else:
            b = some_body(r, 10)
        c = content_of(b)
        short.append((gz(r, b, c[0] if c else b""), (c or [b""])[0]))
    long = []
    for n in ctx.pick([1500, 20000], [1023, 1024, 1025, 8191, 8192, 8193, 20000, 70000]):
        d = cuttable(r, n, r.choice(["noise", "words"]))
        long.append((gz(r, zipped(r, d), d), d))
    for cmd in ("cat", "dump", "zero"):
        plain = Files(cmd)
        for f, d in short + long:
            plain.put(cmd, f, content=d, zlib=1, lenient=0)
        ordinary = len(plain)
        if cmd == "zero":
            for f, d in buffer_edges(r):
                plain.put("edge", f, content=d, zlib=1, lenient=0)
        runs = ctx.cli_runs(plain)
        full = [(c["inp"], c["out"], c["st"]) for c in runs]
        if cmd == "dump":
            for c in runs:
                c["lines"] = lines_of(c.pop("out"))
        path = ctx.record(runs)
        ctx.validate(dict(cat="CatTrace", dump="DumpTrace", zero="ZeroTrace")[cmd], path,
                     cfg="ZeroTrace.cfg" if cmd == "zero" else None, keep=lambda f: f["kind"] != "cut")
        out = Files(cmd)
        for i, (f, o, st) in enumerate(full[:ordinary]):
            if i < len(short) and len(o) < 400:
                caps = range(len(o) + 2)
            else:
                caps = sorted({0, 1, 10, len(o) // 2, len(o) - 9, len(o) - 8, len(o) - 1, len(o), len(o) + 1, 8192, 1024,
                               *(r.randrange(len(o) + 1) for _ in range(ctx.pick(3, 20)))})
            for cap in caps:
                if cap >= 0:
                    out.put(cmd + "-full", f, cap=cap, full=o, fullst=st, src=1)
            # a pipe whose reader goes away; for a reader that is gone at once there is no slack
            for cap in sorted({0, 1, len(o) - 1, len(o), r.randrange(len(o) + 1), max(0, len(o) - 4097 - r.randrange(99)),
                               max(0, len(o) - r.randrange(3000))}):
                if cap >= 0:
                    out.put(cmd + "-pipe", f, cap=cap, full=o, fullst=st, src=1, sink="pipe",
                            slack=4096 if cap else 0)
            out.put(cmd + "-ebadf-ro", f, cap=0, full=o, fullst=st, src=1, sink="ro")
            # an input that fails: before the end of the DEFLATE data, or after it
            need = consumed(f)
            if need:
                for k in sorted({0, 1, 9, 10, need - 1, need, r.randrange(need), r.randrange(need), len(f) - 1, len(f)}):
                    out.put(cmd + "-reset", f[:k], cap=-1, full=o, fullst=st, src=2 if k < need else 3)
                    out[-1]["via"] = "reset"
        for via in ("missing", "dir"):
            out.put(cmd + "-" + via, b"", cap=-1, full=b"", fullst="1", src=0)
            out[-1]["via"] = via
        # single calls of the system that fail once, and then work again; interrupted and partial ones
        base = Files(cmd)
        for f, o, st in full:
            base.put(cmd + "-base", f, cap=-1, full=o, fullst=st, src=1, plan="n:0:0:0")
        for i, (c, (f, o, st)) in enumerate(zip(ctx.cli_runs(base), full)):
            w = c["writes"]
            for n in range(1, w + 1) if w < 12 else sorted({1, 2, 3, w - 1, w, *(r.randrange(1, w + 1) for _ in range(5))}):
                for chunk in (0, 7 if len(o) < 2000 else 700)[:1 if i >= ordinary else 2]:
                    out.put(cmd + "-once", f, cap=-1, full=o, fullst=st, src=1, plan="w:%d:%d:%d" % (n, r.choice(WRITE_ERRORS), chunk))
            for n in sorted({1, w}):
                out.put(cmd + "-ebadf", f, cap=-1, full=o, fullst=st, src=1, plan="w:%d:9:0" % n)
            for k in sorted({0, 1, 9, 10, len(f) - 9, len(f) - 8, len(f) - 1, len(f), *(r.randrange(len(f)) for _ in range(6))}):
                if k >= 0 and i < ordinary:
                    out.put(cmd + "-once-in", f, cap=-1, full=o, fullst=st, src=1, plan="r:%d:%d:0" % (k, r.choice(READ_ERRORS)))
            if i >= ordinary or len(f) > 1000:      # and after each of the pieces a buffer is filled with
                for k in (1024, 4096, 8192, 16384, len(f) // 2):
                    if k < len(f):
                        out.put(cmd + "-once-in", f, cap=-1, full=o, fullst=st, src=1, plan="r:%d:%d:0" % (k, r.choice(READ_ERRORS)))
                        out[-1]["via"] = "file"
            if i >= ordinary:
                continue
            for plan in ("n:0:0:1" if len(f) < 3000 else "n:0:0:100", "i:0:0:0", "i:0:0:%d" % r.choice([3, 50, 1000]),
                         "i:%d:0:%d" % (r.choice([1, 2, 7, 15, 31, 99, 255]), r.choice([0, 50, 1000]))):
                out.put(cmd + "-calls", f, cap=-1, full=o, fullst=st, src=1, plan=plan)
        out += base
        for c in out:
            c.setdefault("sink", "file")
            c.setdefault("slack", 0)
            c.setdefault("hit", 0)
        ctx.samples += ["%s cap=%d %s" % (c["id"], c["cap"], c["inp"].hex()[:200]) for c in r.sample(out, 1)]
        runs = ctx.cli_runs(out)
        ctx.note("calls_failed_once", sum(c["hit"] for c in runs))
        fails = ctx.validate("SinkTrace", ctx.record(runs))
        ctx.known("a write that fails with EBADF (standard output open for reading only) counts as success",
                  [f for f in fails if "-ebadf" in f["id"] and f["why"] in
                   ("other output", "success, but the output was not delivered")], "ebadf")


# -- rebuilding ---------------------------------------------------------------------------------
def whole_files(ctx):
    """Files enumerated with their contents from the specification of the whole system, each of
    which it decodes, traces under every predictor, and builds again."""
    files = {}
    for cfg in ctx.pick(["RezipMC.cfg", "RezipMC_one.cfg"], ["RezipMC_deep.cfg", "RezipMC_one.cfg"]):
        for p in ctx.model("RezipMC", cfg)["printed"]:
            if p.startswith("CASE "):
                c = json.loads(p[5:])
                files[bytes(c["inp"])] = bytes(c["out"])
    ctx.note("files_enumerated_by_tlc", len(files))
    if not files:
        raise RuntimeError("no cases from the model")
    return sorted(files.items())


def c01(ctx):
    r = ctx.rng
    out = Cases("e2e")
    presets = ["spicy"] + ["g%d" % i for i in range(1, 10)]
    k = [0]

    def put(id, f, cfg=None):
        k[0] += 1
        out.put(id, inp=f.hex(), cfg=cfg or presets[k[0] % len(presets)])
    for f, d in whole_files(ctx):
        put("whole", f)
    if ctx.tier != "quick":
        cs = spec_cases(ctx, [])
        for inp, _ in r.sample(cs, min(len(cs), 8000)):
            c = content_of(bytes(inp))
            if c:
                put("tlc", gz(r, bytes(inp), c[0]))
    for name, b in repo_streams():
        c = content_of(b)
        if c and len(c[0]) < 100000:
            for p in (presets if len(c[0]) < 20000 else r.sample(presets, 3)):
                put("repo/" + name, gz(r, b[:c[1]], c[0]), p)
    for _ in range(ctx.pick(1500, 15000)):
        b = some_body(r, r.choice([10, 40, 100]))
        c = content_of(b)
        if c:
            put("file", gz(r, b, c[0]) + r.choice([b"", b"", b"\0", b"more" * 3, gen.header(r) + b"\3\0"]))
    # several blocks that refer to each other's data, as real compressors make them
    for _ in range(ctx.pick(150, 1500)):
        d = rand_data(r, r.choice([300, 1000, 3000]), r.choice([2, 3, 4, 5, 6]))
        b = zlib_stream(r, d, level=r.randint(1, 9), flushes=r.choice([1, 3, 6]))
        put("blocks", gz(r, b, d))
    for _ in range(ctx.pick(10, 80)):        # more data than the window
        n = r.choice([33000, 40000, 70000])
        d = rand_data(r, r.choice([500, 3000]), 3)
        d = (d * (n // len(d) + 1))[:n - 2000] + rand_data(r, 2000, 2)
        put("long", gz(r, zlib_stream(r, d, level=r.randint(1, 9), flushes=r.choice([0, 2, 5])), d))
    for have in (32767, 32768, 32769, 65535):
        s = history(r, have)
        cs = [ref(3, min(have, 32768)), ref(258, 32767), 1, 2, ref(5, 1)]
        s.fixed(cs)
        s.dynamic(cs + rand_codes(r, 10, s.have), True)
        put("far", gz(r, s.bytes()))
    for n in (300000, 800000)[:ctx.pick(1, 2)]:
        d = cuttable(r, n, "const")
        put("const", gz(r, zipped(r, d, 2), d))
    for b in huge_streams(r):
        put("huge", gz(r, b), r.choice(["g1", "g2", "g5"]))
    put("blocks", gz(r, many_blocks(r, ctx.pick(300, MANY))), r.choice(["g1", "g6"]))
    for i in range(6):
        s = Stream(r)
        s.stored(b"abc")
        s.fixed([66, ref(258, 1)], True, odd=True)
        put("odd", gz(r, s.bytes()))
    ctx.sample(out, 3)
    fails = ctx.validate("RebuildTrace", ctx.harness(out))
    ctx.known("length 258 written as symbol 284 with extra bits 31 comes back as symbol 285",
              [f for f in fails if f["why"] == "odd258"], "odd258")
