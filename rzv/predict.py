"""C08, C09, C12, C13, C14, C23: candidates, predictions, traces."""
import bisect, json
from . import gen
from .deflate import Cases
from .gen import ref, rand_data

GZIP = ["g%d" % i for i in range(1, 10)]
LAZY = ["lazy1", "lazy3", "lazy4", "lazy5", "lazy6", "lazy9"]


# -- codes for given data -----------------------------------------------------------------------
def run_at(win, p, d):
    n, most = 0, min(258, len(win) - p)
    while n < most and win[p + n] == win[p + n - d]:
        n += 1
    return n


def codes_for(r, win, np, style=None):
    """Codes that decode to win[np:] given the history win[:np]."""
    style = style if style is not None else r.randrange(5)
    last = {}
    for q in range(0, max(0, np - 2)):
        last.setdefault(win[q:q + 3], []).append(q)
    out, p, fed = [], np, max(0, np - 2)
    while p < len(win):
        while fed < p and fed + 3 <= len(win):
            last.setdefault(win[fed:fed + 3], []).append(fed)
            fed += 1
        c = None
        qs = last.get(win[p:p + 3]) if p + 3 <= len(win) else None
        if style and qs and r.random() < (0.6, 0.9, 1, 1)[style - 1]:
            tries = [qs[-1], qs[0], r.choice(qs), r.choice(qs[-6:])]
            tries = [q for q in tries if p - q <= 32768]
            if tries:
                if style >= 3:          # the longest of a few, nearest first
                    q = max(tries, key=lambda q: (run_at(win, p, p - q), q))
                else:
                    q = r.choice(tries)
                n = run_at(win, p, p - q)
                if style < 3 and n > 3 and r.random() < 0.4:
                    n = r.randint(3, n)
                c = ref(n, p - q)
        if c is None:
            c = win[p]
        out.append(c)
        p += c >> 16 if c > 255 else 1
    return out


def text(codes):
    return ",".join(map(str, codes))


def put(out, r, name, cfg, win, np, codes=None, **kw):
    if codes is None:
        k = r.randrange(6)
        codes = "@%d:%d" % ([0, 20, 100, 300][k], r.randrange(1, 1 << 31)) if k < 4 else codes_for(r, win, np)
    if len(win) < 2000 and r.random() < 0.4:
        kw["used"] = r.choice([1, 1, 2, 2, 3, 4, 5, 8, 15])     # by others, before or meanwhile
    out.put(name, cfg=cfg, pre=win[:np].hex(), dat=win[np:].hex(),
            codes=codes if isinstance(codes, str) else text(codes), **kw)


def planted(r, dists, run, fill=None):
    """Data where the three (or more) bytes at the end are also found at the given distances, and
    hardly anything else repeats."""
    far = max(dists) + r.randint(2, 40)
    win = bytearray()
    while len(win) < far:
        win += r.randrange(1 << 62).to_bytes(8, "little")
    win = win[:far]
    key = [r.randrange(256) for _ in range(run)]
    for d in dists:
        for j in range(run):
            if -d + j < 0:
                win[len(win) - d + j] = key[j]
    return bytes(win) + bytes(key)


def collide(r, n, run):
    """A match behind n positions that have the same hash but not the same bytes."""
    x = r.randrange(256)
    key = bytes([x ^ (r.randrange(1, 8) << 5), x, x]) + bytes(r.randrange(256) for _ in range(run - 3))
    win = bytes(r.randrange(256) for _ in range(r.randint(2, 9))) + key + bytes([r.randrange(256)])
    if r.random() < 0.5:
        win += key[:3] + bytes([key[3] ^ 1 if run > 3 else 7])      # a shorter one after it
    win += bytes([x]) * n
    return win + key + bytes([r.randrange(256)]), len(win)


COLLIDE = [100, 1030, 4099, 8195, 16390, 20100, 32600]


# -- the index that Refs.tla checks and uses ----------------------------------------------------
def index(win):
    n = max(0, len(win) - 3)
    h = [((win[i] & 31) << 10 ^ win[i + 1] << 5 ^ win[i + 2]) & 0x7fff for i in range(n + 1)] if n else []
    order = sorted(range(1, n + 1), key=lambda i: (h[i], -i))
    rank = [0] * (n + 1) if n else []
    be = [0] * n
    for k in range(n - 1, -1, -1):
        rank[order[k]] = k + 1
        be[k] = be[k + 1] if k + 1 < n and h[order[k + 1]] == h[order[k]] else k + 1
    return order, rank, be


def flat(tr):
    out = []
    for x in tr:
        if x < 0:
            out += [-1] * -x
        else:
            out.append(x)
    return out


def annotate(ctx, path, rule):
    new = ctx.tmp("annotated.ndjson")
    with open(new, "w") as f:
        for line in open(path):
            d = json.loads(line)
            st, cv, p = [], [], d["np"]
            for i, c in enumerate(d["codes"]):
                st.append(p)
                n = c >> 16 if c > 255 else 1
                cv += [i + 1] * n
                p += n
            d["st"], d["cv"] = st, cv
            d["rule"] = rule
            d["ord"], d["rank"], d["be"] = index(d["win"]) if rule else ([], [], [])
            d["tr"] = flat(d["tr"])
            for k in ("op", "alive"):
                d.pop(k)
            f.write(json.dumps(d, separators=(",", ":")) + "\n")
    return new


def validate(ctx, out, kind, rule=0):
    path = annotate(ctx, ctx.harness(out), rule)
    ctx.validate("PredictTrace", path, keep=lambda f: f["kind"] == kind)


def model_cases(ctx, out, cfgs, n):
    m = ctx.model("PredictMC", ctx.pick("PredictMC.cfg", "PredictMC_deep.cfg"))
    cases = [json.loads(p[5:]) for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("code_sequences_enumerated_by_tlc", len(cases))
    if len(cases) * len(cfgs) > n:
        cases = ctx.rng.sample(cases, n // len(cfgs))
    for c in cases:
        for cfg in cfgs:
            put(out, ctx.rng, "tlc", cfg, bytes(c["win"]), c["np"], c["codes"])


def random_cases(ctx, out, cfgs, n, big, lims=False):
    r = ctx.rng
    for i in range(n):
        size = r.choice([0, 1, 2, 3, 4, 6, 10, 40, 40, 120, 300, 300, 700])
        win = rand_data(r, size)
        np = r.choice([0, 0, 1, size // 2, max(0, size - 5), r.randint(0, size), size])
        kw = {}
        if lims and r.random() < 0.25:
            kw["lim"] = r.choice([0, 1, 2, 3, 7, 65535])
        put(out, r, "rand", r.choice(cfgs), win, min(np, size), **kw)
    # few symbols and long chains: the limits of the search
    for i in range(n // 12):
        size = r.choice([600, 1500])
        a = bytes(r.sample(range(256), r.choice([1, 2, 2, 3])))
        if r.random() < 0.4:
            a = bytes([79, 111]) + a[:1]
        win = bytes(r.choice(a) for _ in range(size))
        put(out, r, "dense", r.choice(cfgs), win, size - r.choice([30, 150, 500]))
    # a long way back: distances around 4096 and 32768, a history of full size
    for i in range(big):
        cfg = cfgs[i % len(cfgs)]
        dists = r.sample([4095, 4096, 4097, 32767, 32768, 32769, 40000, 4000, 32000, 8192], r.choice([1, 1, 2, 3]))
        if i % 3 == 0:
            dists = [r.choice([4096, 4097])]
        win = planted(r, dists, r.choice([3, 3, 3, 4, 9]))
        win += bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5])))
        np = max(0, len(win) - r.choice([8, 20, 60]))
        put(out, r, "far", cfg, win, np)


def far_window(ctx, out, cfgs, n):
    """A full history of something like text, and a little data."""
    r = ctx.rng
    for i in range(n):
        win = rand_data(r, r.choice([33200, 32768 + 64, 70000]), r.choice([2, 3, 6]))
        put(out, r, "full", cfgs[i % len(cfgs)], win, len(win) - r.choice([150, 64]))


def collisions(ctx, out, cfgs, n):
    """More positions of the same hash than any table may be thought to need."""
    r = ctx.rng
    for i in range(n):
        win, np = collide(r, r.choice(COLLIDE), r.choice([3, 4, 6, 20]))
        put(out, r, "collide", cfgs[i % len(cfgs)], win, np, "@0:1")


def phrases(r, size, pool, lo, hi):
    """Parts of phrases from a pool: what repeats may have been seen long ago, and inside a copy."""
    ps = [r.randrange(1 << (8 * hi)).to_bytes(hi, "little") for _ in range(pool)]
    w = bytearray()
    while len(w) < size:
        p = r.choice(ps)
        a = r.choice([0, 0, r.randint(0, hi - lo)])     # often where a copy of it began
        w += p[a:a + r.randint(lo, hi - a)]
        if r.random() < 0.2:
            w.append(r.randrange(256))
    return bytes(w[:size])


def many_refs(ctx, out, cfgs, n, big):
    """Hundreds of references in one block; blocks of more than 64 KiB."""
    r = ctx.rng
    for i in range(n):
        w = phrases(r, r.choice([2000, 6000]), r.choice([30, 100, 200]), r.choice([3, 7]), r.choice([12, 25]))
        put(out, r, "phrases", cfgs[i % len(cfgs)], w, r.choice([0, 0, 500]), "@%d:%d" % (r.choice([0, 0, 30]), r.randrange(1, 1 << 31)))
    for i in range(big):
        # with repeats also where a little more than 64 KiB are left
        w = phrases(r, r.choice([67500, 70000]), 150 if i % 3 == 2 else 12, 100, 250)
        put(out, r, "over64k", cfgs[i % len(cfgs)], w, r.choice([0, 300, 1500, 20000] if i else [0, 300, 1500]), "@%d:%d" % (r.choice([0, 20]), r.randrange(1, 1 << 31)))


def climb(r, steps):
    """Data where at each of some positions in a row there is a longer match than at the one before."""
    key = [r.randrange(256) for _ in range(600)]
    win = bytearray([r.randrange(256)])
    n, parts = r.choice([3, 3, 4, 5, 8, 14, 30]) if steps < 7 else 3, []
    for start in range(steps):
        parts.append((start, n))
        n += r.choice([1, 1, 2, 2, 5, 12, 0]) if steps < 7 else 1 if r.random() < 0.98 else 0
    r.shuffle(parts)
    for start, n in parts:
        win += bytes(key[start:start + n]) + bytes([r.randrange(256)])
    return bytes(win) + bytes(key[:80 if steps < 7 else 600]), len(win), steps


def climbs(ctx, out, n):
    """Predictions of many codes at once, right, wrong at the end or wrong in between."""
    r = ctx.rng
    for i in range(n):
        win, np, steps = climb(r, r.choice([3, 5, 7, 8, 9, 10, 15, 17, 33, 60] + [130] * (i % 20 == 0)))
        codes = "@%d:%d" % (r.choice([0, 10, 50, 200]), r.randrange(1, 1 << 31)) if i % 3 else codes_for(r, win, np)
        put(out, r, "climb", r.choice(["lazy9", "lazy9", "lazy6", "lazy4"]), win, np, codes)


def many_hidden(ctx, out, cfgs, n):
    """Thousands of long references, over more than 32768 bytes; again and again what follows was last
    seen within one of them, about as far away as can be."""
    r = ctx.rng
    for i in range(n):
        lo, hi = r.choice([(7, 9), (7, 16), (7, 40), (12, 30), (20, 60)])
        size = r.choice([36000, 45000, 60000, 68000])
        win = bytearray(r.randbytes(r.choice([300, 1200])))
        codes, at = list(win), []
        while len(win) < size:
            p = len(win)
            k = r.random()
            old = None
            if p > 33000 and k < 0.2:
                # a reference that straddles what is 32768 bytes back, or one next to it
                j = max(0, bisect.bisect_right(at, (p - 32768, 999)) - r.choice([1, 1, 1, 0, 2]))
                start, run = at[min(j, len(at) - 1)]
                q = start + r.choice([0, 1, 1, 2, run // 2, run - 1])
                if q < p - 32768 and r.random() < 0.8:
                    q = min(p - 32768 + r.choice([0, 0, 1, 2]), start + run - 1)
                old = bytes(win[q:q + r.choice([4, 9, 20])])
            if old:
                if r.random() < 0.5:
                    codes.append(r.randrange(256))
                    win.append(codes[-1])
                codes += old
                win += old
            elif k < 0.3:
                codes.append(r.randrange(256))
                win.append(codes[-1])
            else:
                d = r.randint(1, min(p, r.choice([40, 600, 5000, 32768])))
                run = r.randint(lo, hi)
                at.append((p, run))
                for _ in range(run):
                    win.append(win[-d])
                codes.append(ref(run, d))
        put(out, r, "manyhidden", cfgs[i % len(cfgs)], bytes(win), 0, codes)


def many_codes(ctx, out, cfgs, n):
    """More than 65536 codes, with something to predict, and to be surprised by, all along."""
    r = ctx.rng
    for i in range(n):
        size = r.choice([66500, 70000, 80000])
        w = bytearray(r.randbytes(size))
        for at in list(range(100, size, 4000)) + list(range(65000, size - 50, 150)):
            d = r.randint(1, min(at, 32768, r.choice([300, 40000])))
            for j in range(r.choice([3, 3, 4, 7])):
                w[at + j] = w[at + j - d]
        put(out, r, "codes64k", cfgs[i % len(cfgs)], bytes(w), r.choice([0, 0, 100]), "@%d:%d" % (r.choice([0, 1, 5]), r.randrange(1, 1 << 31)))


def left64k(ctx, out, cfgs, n):
    """A repeat at which about 64 KiB are left, each position of it asked about."""
    r = ctx.rng
    for i in range(n):
        run = r.choice([4, 9, 40, 150, 300])
        key = bytes(r.randrange(256) for _ in range(run))
        head = key + bytes(r.randrange(256) for _ in range(r.randint(1, 9)))
        if r.random() < 0.5:
            head += key[:max(3, run // 2)] + bytes([r.randrange(256)])
        # what is left at the repeat's first byte
        left = 65536 + (run - 4 + r.randint(0, 3) if i % 2 else r.choice([-1, 0, 1, 2, 3, 8, 100, 257, 258, 300]))
        fill = bytes([r.randrange(256)])
        win = head + key + fill * (left - run)
        np = r.choice([0, len(head), len(head)])
        one = max(0, min(run, 24))
        codes = list(win[np:len(head) + one]) + codes_for(r, win, len(head) + one, 3)
        put(out, r, "left64k", cfgs[i % len(cfgs)], win, np, codes)


def c08(ctx):
    out = Cases("trace")
    ctx.model("TraceMachineMC", ctx.pick("TraceMachineMC.cfg", "TraceMachineMC_deep.cfg"))
    if ctx.pick(0, 1):
        ctx.prove("TraceProof")
    cfgs = GZIP + ["spicy"]
    model_cases(ctx, out, cfgs, ctx.pick(8000, 60000))
    random_cases(ctx, out, cfgs + ["spicy"] * 3 + LAZY, ctx.pick(4000, 30000), ctx.pick(60, 400), lims=True)
    many_refs(ctx, out, cfgs, ctx.pick(10, 60), ctx.pick(3, 20))
    far_window(ctx, out, cfgs, ctx.pick(20, 100))
    many_hidden(ctx, out, ["g1", "g3", "g2"], ctx.pick(2, 12))
    climbs(ctx, out, ctx.pick(120, 1500))
    many_codes(ctx, out, ["g6", "spicy", "g1", "g9", "g3"], ctx.pick(2, 12))
    ctx.sample(out[-3000:-100], 2)
    validate(ctx, out, "restore")


def c09(ctx):
    out = Cases("trace")
    ctx.model("TraceMachineMC", ctx.pick("TraceMachineMC.cfg", "TraceMachineMC_deep.cfg"))
    if ctx.pick(0, 1):
        ctx.prove("TraceProof")
    cfgs = GZIP + ["spicy"] * 9
    model_cases(ctx, out, ["g1", "g4", "g9", "spicy"], ctx.pick(4000, 40000))
    random_cases(ctx, out, cfgs + LAZY, ctx.pick(5000, 30000), ctx.pick(40, 300), lims=True)
    collisions(ctx, out, GZIP[3:], ctx.pick(6, 60))
    climbs(ctx, out, ctx.pick(120, 1500))
    many_refs(ctx, out, GZIP + ["spicy"], ctx.pick(6, 60), 0)
    many_codes(ctx, out, ["spicy", "g9", "g1", "g6", "g3"], ctx.pick(2, 12))
    ctx.sample(out[-3000:-100], 2)
    validate(ctx, out, "trace")


def c12(ctx):
    out = Cases("trace")
    cfgs = GZIP + ["spicy"]
    model_cases(ctx, out, ["g1", "g3", "g4", "g9", "spicy"], ctx.pick(6000, 50000))
    random_cases(ctx, out, cfgs + ["spicy"] * 2 + LAZY, ctx.pick(4000, 30000), ctx.pick(90, 500), lims=True)
    far_window(ctx, out, cfgs, ctx.pick(20, 100))
    many_refs(ctx, out, cfgs, ctx.pick(10, 60), ctx.pick(3, 20))
    left64k(ctx, out, cfgs, ctx.pick(10, 60))
    climbs(ctx, out, ctx.pick(120, 1500))
    many_codes(ctx, out, ["g1", "spicy", "g4", "g9"], ctx.pick(2, 12))
    ctx.sample(out[-3000:-100], 2)
    validate(ctx, out, "valid")


def c13(ctx):
    out = Cases("trace")
    model_cases(ctx, out, GZIP, ctx.pick(5000, 60000))
    random_cases(ctx, out, GZIP + ["g1", "g2", "g3"], ctx.pick(3000, 25000), ctx.pick(54, 300))
    dense(ctx, out, GZIP, ctx.pick(36, 200))
    for i in range(ctx.pick(360, 3600)):
        cfg = GZIP[i % 9]
        put(out, ctx.rng, "quits", cfg, *quits(ctx.rng, cfg), codes="@0:1")
    many_refs(ctx, out, ["g1", "g2", "g3", "g1", "g2", "g3", "g6"], ctx.pick(14, 140), ctx.pick(4, 20))
    far_window(ctx, out, GZIP, ctx.pick(18, 90))
    many_hidden(ctx, out, ["g1", "g2", "g3"], ctx.pick(3, 30))
    left64k(ctx, out, GZIP, ctx.pick(9, 60))
    collisions(ctx, out, GZIP[3:] + ["g9", "g6", "g3"], ctx.pick(16, 120))
    ctx.sample(out[-3000:-100], 2)
    validate(ctx, out, "rule", rule=1)


def c23(ctx):
    out = Cases("trace")
    r = ctx.rng
    model_cases(ctx, out, ["spicy"], ctx.pick(2000, 20000))
    random_cases(ctx, out, ["spicy"], ctx.pick(3000, 25000), ctx.pick(40, 300))
    for _ in range(ctx.pick(1500, 15000)):
        put(out, r, "steps", "spicy", *steps_data(r))
    for _ in range(ctx.pick(300, 3000)):
        # the same with matches about as long as they can be
        key = bytes(r.randrange(256) for _ in range(262))
        win = bytearray(r.randrange(256) for _ in range(r.randint(1, 5)))
        pieces = [(0, 3)] * r.choice([1, 1, 2])
        pieces += [(s, r.choice([255, 256, 257, 257, 258, 258, 259])) for s in r.choice([(1, 2), (1, 2), (1,), (2,), (1, 2, 2)])]
        r.shuffle(pieces)
        for start, n in pieces:
            win += key[start:start + n] + bytes([r.randrange(256)])
        np = len(win)
        win += key
        put(out, r, "longsteps", "spicy", bytes(win[:len(win) - r.choice([0, 0, 1, 2, 3, 4])]), np, "@0:1")
    dense(ctx, out, ["spicy"], ctx.pick(12, 60))
    many_refs(ctx, out, ["spicy"], ctx.pick(3, 20), ctx.pick(1, 5))
    far_window(ctx, out, ["spicy"], ctx.pick(8, 60))
    left64k(ctx, out, ["spicy"], ctx.pick(4, 20))
    collisions(ctx, out, ["spicy"], ctx.pick(4, 30))
    ctx.sample(out[-3000:-100], 2)
    validate(ctx, out, "rule", rule=1)


def dense(ctx, out, cfgs, n):
    """More true candidates than the presets try, and runs just below and above what ends a search."""
    r = ctx.rng
    for i in range(n):
        cfg = cfgs[i % len(cfgs)]
        tries = dict(g1=4, g2=8, g3=32, g4=16, g5=32, g6=128, g7=256, g8=1024, g9=4096, spicy=4096)[cfg]
        quit_ = dict(g1=8, g2=16, g3=32, g4=16, g5=32, g6=128, g7=128, g8=258, g9=258, spicy=258)[cfg]
        key = [r.randrange(256) for _ in range(300)]
        # oldest first: a long match just beyond or within the number tried, then short ones
        after = tries + r.choice([-2, -1, 0, 1])
        win = bytearray([1, 2])
        long_ = min(258, quit_ + r.choice([-2, -1, 0, 1, 5]))
        win += bytes(key[:long_]) + bytes([key[long_] ^ 1])
        for j in range(max(0, after)):
            m = r.choice([3, 3, 3, 4, 5]) if tries < 1000 else 3
            win += bytes(key[:m]) + bytes([key[m] ^ r.choice([1, 2, 4])])
            if r.random() < 0.05 and tries < 1000:
                win += bytes(key[:min(258, quit_ - 1)]) + bytes([key[min(258, quit_ - 1)] ^ 8])
        np = len(win)
        win += bytes(key[:270])
        if r.random() < 0.5:
            win = bytes([r.randrange(256) for _ in range(40)]) + bytes(win)
            np += 40
        put(out, r, "dense-" + cfg, cfg, bytes(win), np, codes=None)


QUIT = dict(g1=8, g2=16, g3=32, g4=16, g5=32, g6=128, g7=128, g8=258, g9=258, spicy=258)


def quits(r, cfg):
    """A match about as long as ends the search, nearer than a longer one."""
    q = QUIT[cfg]
    key = [r.randrange(256) for _ in range(270)]
    lens = [r.randint(q, min(258, q + 9)), q + r.choice([-1, 0, 0, 0, 1]), r.choice([3, q - 1, q + 1])][:r.choice([2, 3])]
    if r.random() < 0.2:
        r.shuffle(lens)
    win = bytearray(r.randrange(256) for _ in range(r.randint(1, 5)))
    for n in lens:
        n = min(n, 258)
        win += bytes(key[:n]) + bytes([key[n] ^ r.choice([1, 2, 4])])
    np = len(win)
    return bytes(win) + bytes(key[:r.choice([265, 265, q + 1, q + 10])]), np


def steps_data(r):
    """Data where a match of three is followed by matches of chosen lengths one and two further on."""
    a = [r.randrange(256) for _ in range(24)]
    win = bytearray(r.randrange(256) for _ in range(r.randint(1, 5)))
    pieces = []
    for start in (0, 1, 2, 3):
        for _ in range(r.choice([0, 1, 1, 2])):
            pieces.append((start, r.choice([3, 3, 4, 4, 5, 6, 7, 8])))
    r.shuffle(pieces)
    for start, n in pieces:
        win += bytes(a[start:start + n]) + bytes([r.randrange(256)])
    if r.random() < 0.15:
        k = r.choice([4093, 4096, 4100])
        win += bytes(r.randrange(256) for _ in range(k - len(win) % 7))
    np = len(win)
    win += bytes(a[:12]) + bytes(r.randrange(256) for _ in range(r.choice([0, 0, 3])))
    return bytes(win[:len(win) - r.choice([0, 0, 1, 4, 7])]), min(np, len(win) - 8)


def ranges(r, n, k, lens):
    """Hidden ranges as processed references leave them: in order, none over another."""
    obs, at = [], 0
    for start in sorted(r.randint(0, n) for _ in range(k)):
        start = max(start, at)
        obs.append((start, r.choice(lens)))
        at = start + obs[-1][1]
    return obs


def c14(ctx):
    r = ctx.rng
    out = Cases("cands")

    def add(name, win, np, qs, obs=(), lim=65535, **kw):
        if r.random() < 0.4:
            o2 = r.choice([(), ((0, 65535),), ranges(r, len(win), 3, [3, 4, 9, 60, 258])])
            kw["obs2"] = ",".join("%d:%d" % o for o in o2)
        else:
            kw["obs2"] = "none"
        out.put(name, pre=win[:np].hex(), dat=win[np:].hex(), q=",".join(map(str, qs)),
                obs=",".join("%d:%d" % o for o in obs), lim=lim, **kw)

    m = ctx.model("PredictMC", ctx.pick("PredictMC.cfg", "PredictMC_deep.cfg"))
    wins = sorted({(bytes(c["win"]), c["np"]) for c in
                   (json.loads(p[5:]) for p in m["printed"] if p.startswith("CASE "))})
    ctx.note("windows_enumerated_by_tlc", len(wins))
    for w, np in wins:
        obs = []
        if len(w) > 4 and r.random() < 0.5:
            obs = ranges(r, len(w), r.choice([1, 2]), [1, 2, 3, 4, 5, 6])
        add("tlc", w, np, range(len(w) + 1), obs, r.choice([65535, 65535, 0, 1, 2, 3]))
    for _ in range(ctx.pick(5000, 40000)):
        n = r.choice([0, 1, 2, 3, 5, 20, 60, 200, 400])
        w = rand_data(r, n)
        np = r.choice([0, n, n // 2, r.randint(0, n), max(0, n - 1), max(0, n - 2)])
        obs = ranges(r, n, r.choice([0, 0, 1, 3, 8]), [1, 2, 3, 3, 4, 258, r.randint(1, 60)])
        qs = sorted({r.randint(0, n) for _ in range(6)} | {max(0, n - 3), max(0, n - 2), n, 0, 1})
        add("rand", w, np, [q for q in qs if q <= n], obs, r.choice([65535, 65535, 0, 1, 2, 4, 10, 100]), max=r.choice([100000, 5]))
    for i in range(ctx.pick(60, 300)):
        dists = r.sample([32767, 32768, 32769, 40000, 32766, 1, 2, 3, 4, 300], r.choice([1, 2, 3]))
        w = planted(r, dists, r.choice([3, 4, 9]))
        n = len(w)
        add("far", w, r.choice([0, n - 9, n - 2, 40]), [n - 3, n - 4, n - 9, n - 2], (), r.choice([65535, 1, 2]))
    for i in range(ctx.pick(60, 400)):
        # runs around the longest, at distances on both sides of it
        n = r.choice([254, 255, 256, 257, 258, 259, 260, 263])
        key = bytes(r.randrange(256) for _ in range(n))
        w, qs = rand_data(r, r.choice([1, 5, 300])), []
        for _ in range(r.choice([2, 2, 3])):
            qs += [len(w), len(w) + 1, len(w) + 3]
            w += key + bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 100])))
        w = w[:len(w) - r.choice([0, 0, 1, 2, 5])]
        add("long", w, r.choice([0, n, len(w)]), [q for q in qs if q <= len(w)])
    for i in range(ctx.pick(4, 16)):
        # more than 65536 bytes
        w = rand_data(r, 70000, r.choice([2, 3, 6]))
        n = len(w)
        add("big", w, r.choice([0, 32768, 65536, n - 9]),
            [65535, 65536, 65537, n - 3, n - 4] + [n - 65536 - r.randrange(300) for _ in range(6)] + [r.randint(60000, n - 3) for _ in range(6)],
            [(r.randint(40000, 65000), 30), (65530, 9)], r.choice([65535, 4]), max=60)
    for i in range(ctx.pick(6, 30)):
        # matches that reach the very start of the data, and many of them
        n = r.choice([1000, 3000])
        w = bytes([r.randrange(256)]) * n
        add("same", w, r.choice([0, 1, 500]), [1, 2, 258, 259, n - 259, n - 258, n - 3], (), 65535, max=400)
    for i in range(ctx.pick(10, 60)):
        # long chains: of positions that only look the same, and of ones that are
        n = COLLIDE[i % len(COLLIDE)]
        if i % 2:
            w, np = collide(r, n, r.choice([3, 4, 9]))
            add("collide", w, np, [np, np + 1, len(w) - 3, np - 1], (), 65535, max=40)
        else:
            w = bytes([r.randrange(256)]) * (n + 300)
            add("long-chain", w, r.choice([0, 1, n]), [n, n + 297, n + 298], (), 65535)
    ctx.sample(out[-3000:-100], 3)
    path = ctx.harness(out)
    new = ctx.tmp("annotated.ndjson")
    with open(new, "w") as f:
        for line in open(path):
            d = json.loads(line)
            d["ord"], d["rank"], d["be"] = index(d["win"])
            f.write(json.dumps(d, separators=(",", ":")) + "\n")
    ctx.validate("CandidatesTrace", new)


RUNS = [0, 1, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 34, 63, 127, 128, 129, 256, 257, 258]


def c25(ctx):
    """The search with a match in hand."""
    r = ctx.rng
    out = Cases("better")
    LEVELS = ["g%d" % l for l in range(1, 10)] + ["g4", "g5", "g6", "g7", "g8", "spicy"]

    def add(name, cfg, win, np, codes=None, near=(), **kw):
        runs = [(r.choice([0, 0, 1, 1, 2, 3]), r.choice(near or RUNS)) for _ in range(17)]
        put(out, r, name, cfg, win, np, codes, runs=",".join("%d:%d" % x for x in runs), **kw)

    m = ctx.model("PredictMC", ctx.pick("PredictMC.cfg", "PredictMC_deep.cfg"))
    cases = [json.loads(p[5:]) for p in m["printed"] if p.startswith("CASE ")]
    for c in ctx.rng.sample(cases, min(len(cases), ctx.pick(3000, 40000))):
        add("tlc", r.choice(LEVELS), bytes(c["win"]), c["np"], text(c["codes"]))
    for i in range(ctx.pick(3000, 25000)):
        size = r.choice([3, 6, 10, 40, 120, 300, 300, 700])
        win = rand_data(r, size)
        add("rand", LEVELS[i % len(LEVELS)], win, r.choice([0, 1, size // 2, max(0, size - 5), r.randint(0, size)]))
    # more matches than a quarter of the limit: where the search stops shows
    for i in range(ctx.pick(90, 600)):
        cfg = LEVELS[i % len(LEVELS)]
        tries = dict(g1=4, g2=8, g3=32, g4=16, g5=32, g6=128, g7=256, g8=1024, g9=4096, spicy=4096)[cfg]
        lazy = dict(g4=(4, 4), g5=(8, 16), g6=(8, 16), g7=(8, 32), g8=(32, 128), g9=(32, 258), spicy=(32, 258))
        a, b = lazy.get(cfg, (8, 16))
        near = [0] + [x + d for x in (a, b) for d in (-1, 0, 1) if x + d <= 258]
        key = [r.randrange(256) for _ in range(60)]
        long_ = r.choice([9, 12, 14, 40])
        win = bytearray([1, 2]) + bytes(key[:long_]) + bytes([key[long_] ^ 1])
        for j in range(max(0, r.choice([tries // 4, tries]) + r.choice([-3, -2, -1, 0, 1]))):
            n = r.choice([3, 3, 4]) if tries < 1000 else 3
            win += bytes(key[:n]) + bytes([key[n] ^ r.choice([1, 2, 4])])
        np = len(win)
        win += bytes(key[:50])
        add("quarter-" + cfg, cfg, bytes(win), np, "@0:1" if r.random() < 0.5 else None, near)
    for i in range(ctx.pick(12, 90)):
        win, np = collide(r, r.choice(COLLIDE), r.choice([3, 4, 6, 20]))
        add("collide", LEVELS[i % len(LEVELS)], win, np, "@0:1")
    for i in range(ctx.pick(200, 2000)):
        cfg = LEVELS[i % len(LEVELS)]
        win, np = quits(r, cfg)
        add("quits", cfg, win, np, "@0:1", [0, 3, 4, 5, QUIT[cfg] - 1, QUIT[cfg]])
    # climbing: at each place a longer match than at the one before
    for i in range(ctx.pick(900, 8000)):
        win, np, steps = climb(r, r.randint(1, 6) if i % 10 or i >= 900 else r.randint(7, 40) if i % 300 else 250)
        add("climb", LEVELS[i % len(LEVELS)] if steps < 7 else r.choice(["g9", "g9", "spicy", "g8", "g1"]), win, np, "@0:1")
    ctx.sample(out[-3000:-100], 2)
    path = ctx.harness(out)
    new = ctx.tmp("annotated.ndjson")
    with open(new, "w") as f:
        for line in open(path):
            d = json.loads(line)
            st, cv, p = [], [], d["np"]
            for i, c in enumerate(d["codes"]):
                st.append(p)
                n = c >> 16 if c > 255 else 1
                cv += [i + 1] * n
                p += n
            d["st"], d["cv"] = st, cv
            d["ord"], d["rank"], d["be"] = index(d["win"])
            for k in ("op", "alive"):
                d.pop(k, None)
            f.write(json.dumps(d, separators=(",", ":")) + "\n")
    ctx.validate("BetterTrace", new)
