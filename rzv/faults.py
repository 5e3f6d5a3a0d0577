"""C20: sources and sinks that are slow, interrupted or broken."""
import itertools
from . import gen
from .bits import bitio_ops
from .deflate import Cases
from .files import content_of, some_body
from .gen import KINDS
from .formats import rand_entries, written


def plan(r, n=None, sink=False, fault=0.5):
    """chunk:intr:fail:kind:once; the fault somewhere in 0..n."""
    at = -1
    if n is not None and r.random() < fault:
        at = r.choice([0, 1, n, max(0, n - 1), n + 1]) if r.random() < 0.2 else r.randint(0, n)
    return "%d:%d:%d:%s:%d" % (r.choice([0, 0, 1, 1, 2, 3, 7, 64, 10000000 + r.choice([2, 3, 5, 300])]), r.choice([0, 0, 2, 2, 3, 5, r.choice([3002, 8002, 17002, 40003, 130002, 3040])]), at,
                               r.choice(KINDS + "z" * 2 * sink), r.randrange(2))


def c20(ctx):
    r = ctx.rng
    out = Cases("codec")
    for _ in range(ctx.pick(2500, 25000)):
        b = some_body(r, 15)
        n = len(b)
        c = content_of(b)
        m = len(c[0]) if c else 0
        b += r.choice([b"", b"\xff", b"tail"])
        k = r.randrange(4)
        if k == 0:
            out.put("source", inp=b.hex(), do="d", rp=plan(r, n))
        elif k == 1:
            out.put("sink", inp=b.hex(), do="d", dp=plan(r, m, True, 0.7), rp=plan(r))
        elif k == 2:
            out.put("coder", inp=b.hex(), do="r", cp=plan(r, n, True, 0.7), rp=plan(r))
        else:
            out.put("slow", inp=b.hex(), do="dr", rp=plan(r), dp=plan(r, None, True), cp=plan(r, None, True))
    for _ in range(ctx.pick(600, 6000)):      # malformed input, slowly
        w, b = gen.bad_stream(r)
        out.put("bad-" + w, inp=b.hex(), do="d", rp=plan(r, len(b), False, 0.3))
    # a fault at every byte of one stream, for each side and kind
    for kind in KINDS + "z":
        s = gen.Stream(r)
        s.fixed([65, 66, 67, gen.ref(5, 2)])
        s.stored(b"stored bytes")
        s.dynamic([1, 2, gen.ref(30, 20), gen.ref(3, 1), 255], True)
        b = s.bytes()
        for i, once in itertools.product(range(len(b) + 2), (0, 1)):
            if kind != "z":
                out.put("every", inp=b.hex(), do="d", rp="%d:%d:%d:%s:%d" % (r.choice([0, 1, 3]), r.choice([0, 2]), i, kind, once))
            out.put("every", inp=b.hex(), do="r", cp="%d:%d:%d:%s:%d" % (r.choice([0, 1, 3]), r.choice([0, 2]), i, kind, once))
        for i, once in itertools.product(range(s.have + 2), (0, 1)):
            out.put("every", inp=b.hex(), do="d", dp="%d:%d:%d:%s:%d" % (r.choice([0, 1, 3]), r.choice([0, 2]), i, kind, once))
    # one failing write at every byte, with every block's start at every bit of a byte
    for shift in range(8):
        s = gen.Stream(r)
        s.fixed([200] * shift)
        s.dynamic([r.randrange(256), gen.ref(r.choice([3, 258]), 1)])
        s.fixed([r.randrange(144, 256) for _ in range(shift)])
        s.stored(r.randbytes(2))
        s.dynamic([r.randrange(256) for _ in range(3)], True)
        b = s.bytes()
        for i in range(len(b) + 2):
            out.put("shifts", inp=b.hex(), do="r", cp="0:0:%d:%s:1" % (i, r.choice(KINDS)))
    # a read that fails once within the length of a stored block, where what is read could still fit
    for n in (0xff00, 0xff37, 0xffff):
        s = gen.Stream(r)
        s.stored(bytes(n))
        s.fixed([65], True)
        for at in range(1, 6):
            out.put("length", inp=s.bytes().hex(), do="d", rp="0:0:%d:o:1" % at)
    for n in (300, 40000, 65535):
        for q in ("rp", "dp", "cp"):
            s = gen.Stream(r)
            s.fixed([7])
            s.stored(r.randbytes(n))
            s.fixed([8], True)
            b = s.bytes()
            for at in (-1, n // 2, n + 1, n + 6):
                out.put("big", inp=b.hex(), do="r" if q == "cp" else "d",
                        **{q: "%d:%d:%d:o" % (r.choice([0, 100, 4096]), r.choice([0, 3]), at)})
    ctx.sample(out, 2)
    ctx.validate("DeflateTrace", ctx.harness(out, stall=30))

    out = Cases("gzhdr")
    for _ in range(ctx.pick(1500, 15000)):
        h = gen.header(r) + b"\3\0"
        out.put("header", inp=(h if r.random() < 0.8 else h[:r.randrange(len(h))]).hex(), rp=plan(r, len(h)))
    for kind in KINDS:
        h = gen.header(r, 31, extra=b"extra", name=b"name", comment=b"comment") + b"\3\0"
        for i, once in itertools.product(range(len(h) + 1), (0, 1)):
            out.put("every", inp=h.hex(), rp="%d:%d:%d:%s:%d" % (r.choice([0, 1, 3]), r.choice([0, 2]), i, kind, once))
    ctx.sample(out, 1)
    ctx.validate("HeaderTrace", ctx.harness(out, stall=30))

    out = Cases("tfr")
    for _ in range(ctx.pick(3000, 30000)):
        b = written(rand_entries(r, r.choice([0, 1, 3, 8]), r.random() < 0.1), r)
        if r.random() < 0.2:
            b = b[:r.randint(0, len(b))]
        out.put("meta", inp=b.hex(), rp=plan(r, len(b)))
    ctx.sample(out, 1)
    ctx.validate("FormatTrace", ctx.harness(out, stall=30), cfg="FormatTrace.cfg")

    out = Cases("bitio")
    for _ in range(ctx.pick(1500, 15000)):
        ops = bitio_ops(r, r.choice([1, 3, 10]))
        n = sum({"b": 1, "v": 9, "s": 10, "a": 4, "d": 8 * len(o)}[o[0]] for o in ops) // 8
        out.put("bits", ops=",".join(ops), wp=plan(r, n, True), rp=plan(r))
    ctx.sample(out, 1)
    ctx.validate("BitIOTrace", ctx.harness(out, stall=30))
