"""C07: the history buffer."""
from .deflate import Cases


def from_model(text):
    """A sequence printed by WindowMC, as harness calls with queries in between."""
    ops = []
    for w in text.split(";"):
        if not w:
            continue
        if w[0] == "p":
            ops.append("p%02x" % int(w[1:]))
        elif w[0] == "x":
            a, k = map(int, w[1:].split("+"))
            ops.append("x" + bytes(range(a, a + k)).hex())
        else:
            ops.append(w)
        ops += ["v", "l"]
    return ops + ["k"]


def rand_calls(r, cap, n, grow=None):
    ops, have = [], 0
    if grow:
        ops.append("X%d:%d" % (grow, r.randrange(1 << 30)))
        have = grow
    for _ in range(n):
        shown = min(cap, have)
        q = r.randrange(9)
        if q == 0:
            ops.append("p%02x" % r.randrange(256))
            have += 1
        elif q < 3:
            k = r.choice([0, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap + 1, 5,
                          r.choice([2, 3, 4, 5, 8, 9, 16, 17, 33, 65]) * cap + r.choice([-1, 0, 1, 2])])
            k = max(0, min(k, 500 if cap < 400 else r.choice([5, 300, 70000])))
            ops.append("X%d:%d" % (k, r.randrange(1 << 30)))
            have += k
        elif q < 7:
            d = r.choice([1, 2, 3, shown, shown, shown - 1, r.randint(0, shown), r.randint(1, max(1, shown)),
                          shown + 1, cap, cap + 1, 0, 65535])
            d = max(0, min(65535, d))
            k = r.choice([0, 1, 2, 3, d - 1, d, d + 1, 2 * d, 258, r.randrange(259), cap, cap + 1])
            k = max(0, min(k, 600 if cap < 600 else r.choice([258, 258, 65535])))
            ops.append("c%d:%d" % (d, k))
            if 1 <= d <= shown:
                have += k
        else:
            # any valid distance
            if shown:
                ops.append("g%d" % r.choice([1, shown, r.randint(1, shown)]))
            ops.append("l")
        if cap < 2000 and r.random() < 0.5:
            ops.append("v")
    return ops + ["v", "l", "k"]


def c07(ctx):
    r = ctx.rng
    out = Cases("window")
    m = ctx.model("WindowMC", ctx.pick("WindowMC.cfg", "WindowMC_deep.cfg"))
    if ctx.pick(0, 1):
        ctx.prove("WindowProof")
    scripts = [p[5:].split(" ", 1) for p in m["printed"] if p.startswith("CASE ")]
    ctx.note("sequences_enumerated_by_tlc", len(scripts))
    limit = ctx.pick(26000, 150000)
    if len(scripts) > limit:
        scripts = r.sample(scripts, limit)
    for cap, s in scripts:
        out.put("tlc", cap=cap, ops=";".join(from_model(s)))
    for _ in range(ctx.pick(6000, 30000)):
        cap = r.choice([1, 2, 3, 4, 5, 7, 8, 16, 31, 100, 255, 256, 257, 258, 300])
        out.put("rand", cap=cap, ops=";".join(rand_calls(r, cap, r.choice([4, 12, 40]))))
    for _ in range(ctx.pick(100, 600)):
        cap = r.choice([32768, 32768, 32767, 65535, 65534, 4096])
        grow = r.choice([0, cap - 300, cap - 1, cap, cap + 1, 2 * cap - 100, cap + r.randrange(3000)])
        out.put("large", cap=cap, ops=";".join(rand_calls(r, cap, r.choice([6, 14]), grow)))
    for i in range(ctx.pick(8, 60)):    # several times the capacity at once
        cap = r.choice([32768, 32768, 32767, 65535, 4096, 1024])
        n = min(r.choice([2, 3, 4, 5, 8, 9, 17]), 300000 // cap) * cap + r.choice([-1, 0, 1, 100])
        first = r.choice([0, 1, cap - 1, cap, cap + 7, r.randrange(cap)])
        out.put("times", cap=cap, ops="X%d:1;X%d:%d;v;l;" % (first, n, r.randrange(1 << 30)) + ";".join(rand_calls(r, cap, 3)))
    ctx.sample(out[-1000:-30], 3)
    ctx.validate("WindowTrace", ctx.harness(out))
