"""Inputs: data, DEFLATE streams of every shape (an encoder with free choice), gzip files."""
import zlib, struct

KINDS = "ouwptdiremsxf"        # of errors: see harness/src/io_plan.rs
LBASE = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LEXTRA = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0]
DBASE = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DEXTRA = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13]
CLORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


def ref(run, dist):
    return 65536 * run + dist


def len_sym(n, odd=False):
    if n == 258 and odd:
        return 284, 5, 31
    k = max(i for i in range(29) if LBASE[i] <= n)
    return 257 + k, LEXTRA[k], n - LBASE[k]


def dist_sym(d):
    k = max(i for i in range(30) if DBASE[i] <= d)
    return k, DEXTRA[k], d - DBASE[k]


class Bits:
    def __init__(self):
        self.b = []

    def num(self, v, n):
        self.b += [(v >> i) & 1 for i in range(n)]

    def code(self, v, n):      # most significant bit first
        self.b += [(v >> (n - 1 - i)) & 1 for i in range(n)]

    def align(self, r=None, bad=False):
        k = -len(self.b) % 8
        pad = [0] * k
        if bad and k:
            pad[r.randrange(k)] = 1
        self.b += pad

    def bytes(self):
        b = self.b + [0] * (-len(self.b) % 8)
        return bytes(sum(b[i + j] << j for j in range(8)) for i in range(0, len(b), 8))


def canon(lens):
    """symbol -> (code, length)"""
    out, code = {}, 0
    for l in range(1, 16):
        for s, x in enumerate(lens):
            if x == l:
                out[s] = (code, l)
                code += 1
        code <<= 1
    return out


FIXED_L = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
FIXED_D = [5] * 32


def complete(r, n, maxlen, deep=False):
    """n >= 2 leaf depths of a full binary tree no deeper than maxlen."""
    leaves = [1, 1]
    while len(leaves) < n:
        ok = [i for i, d in enumerate(leaves) if d < maxlen]
        if deep and r.random() < 0.7:
            m = max(leaves[i] for i in ok)
            ok = [i for i in ok if leaves[i] == m]
        i = r.choice(ok)
        leaves[i] += 1
        leaves.append(leaves[i])
        # keep it possible to reach n leaves
    return leaves


def lens_for(r, syms, size, maxlen=15, deep=False):
    """Random complete code over syms (>= 2 of them), as a list of `size` lengths."""
    lens = [0] * size
    syms = list(syms)
    d = complete(r, len(syms), maxlen, deep)
    r.shuffle(d)
    for s, l in zip(syms, d):
        lens[s] = l
    return lens


def several(r, syms, size, maxlen=15):
    """As many times over-full as need be: several complete codes at once."""
    syms, lens = list(syms), [0] * size
    r.shuffle(syms)
    k = r.choice([2, 3, 3, 3, 4, 5, 5, 7, 8, 9])
    k = min(k, len(syms) // 2)
    for i in range(k):
        part = syms[i::k]
        for s, l in enumerate(lens_for(r, part[:r.choice([2, 2, 3, len(part)])], size, maxlen)):
            lens[s] = l or lens[s]
    return lens


def rle_lens(r, lens, style):
    """Code-length symbols [(sym, extra bits, extra)] for a list of lengths; style 0 never
    repeats, 1 as long as possible, 2 at random (a run of zeros too may be a 'repeat')."""
    out, i = [], 0
    while i < len(lens):
        v = lens[i]
        run = 1
        while i + run < len(lens) and lens[i + run] == v:
            run += 1
        use = style != 0 and not (style == 2 and r.random() < 0.3)
        if use and style == 2 and v == 0 and run >= 3 and i > 0 and lens[i - 1] == 0 and r.random() < 0.5:
            k = r.randint(3, min(run, 6))       # zeros repeated, whatever wrote them
            out.append((16, 2, k - 3))
            i += k
        elif use and v == 0 and run >= 3:
            if run >= 11 and not (style == 2 and r.random() < 0.3):
                k = min(run, 138)
                if style == 2:
                    k = r.randint(11, k)
                out.append((18, 7, k - 11))
            else:
                k = min(run, 10)
                if style == 2:
                    k = r.randint(3, k)
                out.append((17, 3, k - 3))
            i += k
        elif use and i > 0 and lens[i - 1] == v and run >= 3:
            k = min(run, 6)
            if style == 2:
                k = r.randint(3, k)
            out.append((16, 2, k - 3))
            i += k
        else:
            out.append((v, 0, 0))
            i += 1
    return out


def table_bits(r, ll, dl, style=None, hlit=None, hdist=None, clens=None):
    """Bits of a dynamic block's tables for the given lengths."""
    ll, dl = list(ll), list(dl)
    if style is None:
        style = r.choice([0, 1, 2, 2])
    if hlit is None:
        top = max(i for i, x in enumerate(ll) if x) + 1
        hlit = max(257, top)
        hlit = r.choice([hlit, hlit, r.randint(hlit, 286)])
    if hdist is None:
        nz = [i for i, x in enumerate(dl) if x]
        top = (max(nz) + 1) if nz else 1
        hdist = top if not nz else r.choice([top, top, r.randint(top, 30)])
    ll = (ll + [0] * 288)[:hlit]
    dl = (dl + [0] * 32)[:hdist]
    seq = rle_lens(r, ll + dl, style)
    used = sorted(set(s for s, _, _ in seq))
    if clens is None:
        while len(used) < 2:
            used.append(r.choice([s for s in range(19) if s not in used]))
        extra = [s for s in range(19) if s not in used]
        r.shuffle(extra)
        used += extra[:r.choice([0, 0, 1, 3])]
        clens = lens_for(r, used, 19, 7, r.random() < 0.3)
    w = Bits()
    hclen = max([i for i, s in enumerate(CLORDER) if clens[s]] + [3]) + 1
    if r.random() < 0.2:
        hclen = r.randint(hclen, 19)
    w.num(hlit - 257, 5)
    w.num(hdist - 1, 5)
    w.num(hclen - 4, 4)
    for s in CLORDER[:hclen]:
        w.num(clens[s], 3)
    cc = canon(clens)
    for s, n, x in seq:
        if s not in cc:
            return w.b          # cannot be written with these lengths: cut here
        w.code(*cc[s])
        w.num(x, n)
    return w.b


def put_codes(w, codes, ll, dl, odd=False, eob=True):
    lc, dc = canon(ll), canon(dl)
    for c in codes:
        if c < 256:
            w.code(*lc[c])
        else:
            n, d = c >> 16, c & 65535
            s, k, x = len_sym(n, odd and n == 258)
            w.code(*lc[s])
            w.num(x, k)
            s, k, x = dist_sym(d)
            w.code(*dc[s])
            w.num(x, k)
    if eob:
        w.code(*lc[256])


def tables_for(r, codes, odd=False, full=False, deep=None):
    """Random lengths that give every needed symbol a code."""
    ls, ds = {256}, set()
    for c in codes:
        if c < 256:
            ls.add(c)
        else:
            ls.add(len_sym(c >> 16, odd)[0])
            ds.add(dist_sym(c & 65535)[0])
    spare = [s for s in range(286) if s not in ls]
    r.shuffle(spare)
    want = 286 if full else r.choice([0, 0, 1, 5, 40, 286])
    ls |= set(spare[:max(want, 2 - len(ls))])
    deep = r.random() < 0.4 if deep is None else deep
    ll = lens_for(r, sorted(ls), 288, 15, deep)
    if not ds and r.random() < 0.4:
        dl = [0]
    elif len(ds) <= 1 and r.random() < 0.5:
        dl = [0] * 32
        dl[list(ds)[0] if ds else r.randrange(30)] = 1
    else:
        spare = [s for s in range(30) if s not in ds]
        r.shuffle(spare)
        want = r.choice([0, 0, 1, 30])
        ds |= set(spare[:max(want, 2 - len(ds))])
        dl = lens_for(r, sorted(ds), 32, 15, deep)
    return ll, dl


def apply_codes(out, codes):
    """Decode codes onto bytearray out; references must be valid."""
    for c in codes:
        if c < 256:
            out.append(c)
        else:
            n, d = c >> 16, c & 65535
            for _ in range(n):
                out.append(out[-d])


EDGE_LEN = sorted(set([x for b, e in zip(LBASE, LEXTRA) for x in (b, b + (1 << e) - 1)]) - {258}) + [258, 258]
EDGE_DIST = sorted(set(x for b, e in zip(DBASE, DEXTRA) for x in (b, b + (1 << e) - 1)))


def rand_codes(r, n, have, lits=None, pref=0.4, pend=0.0):
    """n random codes valid after `have` bytes of history. pend: probability of a bad distance."""
    lits = lits or range(256)
    out = []
    for _ in range(n):
        if have >= 1 and r.random() < pref:
            run = r.choice(EDGE_LEN) if r.random() < 0.5 else r.randint(3, 258)
            lim = min(have, 32768)
            if pend and r.random() < pend and have < 32768:
                d = r.choice([have + 1, min(32768, have + 2), 32768])
            elif r.random() < 0.3:
                d = r.choice([lim, max(1, lim - 1), 1, min(2, lim), min(3, lim)])
            elif r.random() < 0.5:
                ok = [x for x in EDGE_DIST if x <= lim]
                d = r.choice(ok)
            else:
                d = r.randint(1, lim)
            out.append(ref(run, d))
            have += run
        else:
            out.append(r.choice(lits))
            have += 1
    return out


def out_len(codes):
    return sum(1 if c < 256 else c >> 16 for c in codes)


class Stream:
    """A DEFLATE stream under construction; remembers where the choices fell."""

    def __init__(self, r):
        self.r, self.w, self.n = r, Bits(), 0
        self.have = 0

    def header(self, final, kind):
        self.w.num(1 if final else 0, 1)
        self.w.num(kind, 2)

    def stored(self, data, final=False, badpad=False, badlen=0, cut=0):
        self.header(final, 0)
        self.w.align(self.r, badpad)
        self.w.num(len(data), 16)
        self.w.num((len(data) ^ 0xffff) ^ badlen, 16)
        for b in data[:len(data) - cut]:
            self.w.num(b, 8)
        self.have += len(data)

    def fixed(self, codes, final=False, odd=False, eob=True):
        self.header(final, 1)
        put_codes(self.w, codes, FIXED_L, FIXED_D, odd, eob)
        self.have += out_len(codes)

    def dynamic(self, codes, final=False, odd=False, tables=None, eob=True, **kw):
        self.header(final, 2)
        ll, dl = tables or tables_for(self.r, codes, odd)
        self.w.b += table_bits(self.r, ll, dl, **kw)
        put_codes(self.w, codes, ll, dl, odd, eob)
        self.have += out_len(codes)

    def bytes(self, badpad=False):
        self.w.align(self.r, badpad)
        return self.w.bytes()


def rand_stream(r, blocks=None, size=30, odd=False, bigstored=False):
    """A valid stream of random blocks."""
    s = Stream(r)
    n = blocks or r.choice([1, 1, 2, 3, 5])
    for i in range(n):
        last = i == n - 1
        k = r.randrange(3)
        lits = r.sample(range(256), r.choice([1, 2, 8, 64])) if r.random() < 0.7 else None
        if k == 0:
            m = r.choice([0, 1, 2, 3, 7, 40, 255, 256, 300])
            if bigstored:
                m = r.choice([256, 32767, 32768, 65535])
            s.stored(bytes(r.choice(lits or range(256)) for _ in range(m)), last)
        else:
            cs = rand_codes(r, r.choice([0, 1, 2, size, size]), s.have, lits, r.choice([0, 0.3, 0.9]))
            (s.fixed if k == 1 else s.dynamic)(cs, last, odd)
    return s.bytes()


# -- data ---------------------------------------------------------------------------------------
def rand_data(r, n, style=None):
    style = style if style is not None else r.randrange(7)
    if style == 0:
        return bytes(r.randrange(256) for _ in range(n))
    if style == 1:
        a = [r.randrange(256) for _ in range(2)]
        return bytes(r.choice(a) for _ in range(n))
    if style == 2:          # words
        words = [bytes(r.randrange(97, 123) for _ in range(r.randint(1, 9))) for _ in range(12)]
        out = b""
        while len(out) < n:
            out += r.choice(words) + b" "
        return out[:n]
    if style == 3:          # long repeats with small edits
        out = bytearray(r.randrange(256) for _ in range(min(n, r.randint(4, 400))))
        while len(out) < n:
            d, k = r.randint(1, len(out)), r.randint(3, 300)
            for _ in range(k):
                out.append(out[-d])
            if r.random() < 0.5:
                out.append(r.randrange(256))
        return bytes(out[:n])
    if style == 4:          # runs
        out = b""
        while len(out) < n:
            out += bytes([r.choice(b"ab\0\xff")]) * r.choice([1, 2, 3, 4, 5, 30, 257, 258, 259, 300])
        return out[:n]
    if style == 5:          # three-byte keys that share a hash: b1 ^ 1 with b2 ^ 32
        out = bytearray()
        base = [r.randrange(256) for _ in range(3)]
        while len(out) < n:
            k = r.randrange(4)
            b = base if k == 0 else [base[0], base[1] ^ 1, base[2] ^ 32] if k == 1 else \
                [base[0] ^ r.choice([1, 33]), base[1] ^ 32, base[2]] if k == 2 else [r.randrange(256) for _ in range(3)]
            out += bytes(b)
        return bytes(out[:n])
    a = bytes(r.randrange(256) for _ in range(max(1, n // 3)))
    return (a + bytes(r.randrange(4) for _ in range(n // 3 + 1)) + a + a)[:n]


def zlib_stream(r, data, level=None, strategy=None, flushes=0):
    c = zlib.compressobj(r.randint(0, 9) if level is None else level, zlib.DEFLATED, -r.randint(9, 15),
                         r.randint(1, 9), r.choice([0, 1, 2, 3, 4]) if strategy is None else strategy)
    out, at = b"", 0
    for _ in range(flushes):
        n = r.randint(0, max(1, len(data) // (flushes + 1)))
        out += c.compress(data[at:at + n]) + c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH if hasattr(zlib, "Z_PARTIAL_FLUSH") else 1]))
        at += n
    return out + c.compress(data[at:]) + c.flush()


# -- gzip ---------------------------------------------------------------------------------------
def header(r, flags=None, extra=None, name=None, comment=None):
    f = r.randrange(32) if flags is None else flags
    h = b"\x1f\x8b\x08" + bytes([f]) + bytes(r.randrange(256) for _ in range(6))
    if f & 4:
        e = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 255, 256, 300]))) if extra is None else extra
        h += struct.pack("<H", len(e)) + e
    for bit, v in ((8, name), (16, comment)):
        if f & bit:
            h += (bytes(r.randrange(1, 256) for _ in range(r.choice([0, 1, 7, 40]))) if v is None else v) + b"\0"
    if f & 2:
        h += struct.pack("<H", zlib.crc32(h) & 0xffff)
    return h


def trailer(data):
    return struct.pack("<II", zlib.crc32(data), len(data) & 0xffffffff)


# -- malformed streams --------------------------------------------------------------------------
def bad_stream(r):
    """(what, bytes): a stream with one definite fault, after some valid blocks."""
    s = Stream(r)
    for _ in range(r.choice([0, 0, 1, 2])):
        if r.random() < 0.4:
            s.stored(bytes(r.randrange(256) for _ in range(r.randrange(6))))
        else:
            cs = rand_codes(r, r.randrange(12), s.have)
            (s.fixed if r.random() < 0.5 else s.dynamic)(cs)
    w = s.w
    what = r.choice(["clmany", "litmany", "dstmany", "type3", "storedlen", "storedpad", "storedcut", "finalpad", "fixedlen", "fixeddist",
                     "clover", "clunder", "cllone", "clzero", "litover", "litunder", "litlone", "nolit", "dstover", "dstunder",
                     "dst2zero", "repfirst", "repover", "noref", "loneref", "hlit287", "noeob", "cut", "dynlen", "dyndist"])
    final = r.random() < 0.7
    cs = rand_codes(r, r.randrange(1, 8), s.have)
    if what == "type3":
        s.header(final, 3)
        w.num(r.randrange(1 << 16), 16)
    elif what == "storedlen":
        s.stored(bytes(5), final, badlen=1 << r.randrange(16))
    elif what == "storedpad":
        while (len(w.b) + 3) % 8 == 0:
            s.fixed([r.randrange(144, 256)])
        s.stored(b"abc", final, badpad=True)
    elif what == "storedcut":
        s.stored(bytes(r.randrange(256) for _ in range(9)), final, cut=r.randint(1, 9))
        return what, s.w.bytes()
    elif what == "finalpad":
        s.fixed(cs, True)
        if len(w.b) % 8 == 0:
            s2 = [r.randrange(144, 256)]
            w.b = w.b[:-7]
            put_codes(w, s2, FIXED_L, FIXED_D)
        return what, s.bytes(badpad=True)
    elif what == "fixedlen":
        s.fixed(cs, final, eob=False)
        w.code(*canon(FIXED_L)[r.choice([286, 287])])
        w.code(r.randrange(30), 5)
        w.num(0, 7)
    elif what == "fixeddist":
        s.fixed(cs, final, eob=False)
        w.code(*canon(FIXED_L)[257])
        w.code(r.choice([30, 31]), 5)
        w.num(0, 7)
    elif what in ("clover", "clunder", "cllone", "clzero", "clmany"):
        ll, dl = tables_for(r, cs)
        cl = lens_for(r, r.sample(range(19), r.randint(3, 12)), 19, 7)
        if what == "clmany":
            cl = several(r, range(19), 19, 7)
        i = r.choice([k for k in range(19) if cl[k]])
        if what == "clmany":
            pass
        elif what == "clover":
            cl[i] -= 1
            if cl[i] == 0:
                cl[i] = 1
                cl[r.choice([k for k in range(19) if not cl[k]])] = r.randint(1, 7)
        elif what == "clunder":
            if cl[i] < 7 and r.random() < 0.5:
                cl[i] += 1
            else:
                cl[i] = 0
        else:
            cl = [0] * 19
            if what == "cllone":
                cl[r.randrange(19)] = r.choice([1, 1, 2, 7])
        s.header(final, 2)
        w.b += table_bits(r, ll, dl, clens=cl)
    elif what in ("litmany", "dstmany", "litover", "litunder", "litlone", "nolit", "dstover", "dstunder", "dst2zero", "noref", "loneref",
                  "noeob", "hlit287", "dynlen", "dyndist"):
        kw = {}
        ll, dl = tables_for(r, cs)
        tgt = ll if what.startswith("lit") else dl
        if what == "litmany":
            ll = several(r, range(286), 288)
        elif what == "dstmany":
            dl = several(r, range(30), 32)
        elif what in ("litover", "litunder"):
            i = r.choice([k for k in range(288) if ll[k]])
            if what == "litunder":
                ll[i] = ll[i] + 1 if ll[i] < 15 and r.random() < 0.6 else 0
            else:
                ll[i] -= 1
                if not ll[i]:
                    ll[i] = 1
                    ll[next(k for k in range(257) if not ll[k])] = 15
        elif what == "litlone":
            ll = [0] * 288
            ll[r.choice([0, 65, 256])] = 1
        elif what == "nolit":
            ll = [0] * 288
            kw = dict(hlit=257)
        elif what in ("dstover", "dstunder"):
            dl = lens_for(r, r.sample(range(30), r.randint(3, 20)), 32)
            i = r.choice([k for k in range(30) if dl[k]])
            if what == "dstunder":
                dl[i] = dl[i] + 1 if dl[i] < 15 and r.random() < 0.6 else 0
            else:
                dl[i] -= 1
                if not dl[i]:
                    dl[i] = 1
                    dl[next(k for k in range(30) if not dl[k])] = 15
            if sum(1 for x in dl if x) == 1 and 1 in dl:
                dl = [2] + [0] * 31
        elif what == "dst2zero":
            dl = [0] * 32
            kw = dict(hdist=r.randint(2, 30))
        elif what in ("noref", "loneref"):
            ll = lens_for(r, sorted({256, 97, 257 + r.randrange(29)}), 288)
            dl = [0] if what == "noref" else [0] * 32
            if what == "loneref":
                dl[r.randrange(4)] = r.choice([1, 1, 1, 2])
        elif what == "noeob":
            ll = lens_for(r, r.sample(range(256), 7), 288)
        elif what == "hlit287":
            # both reserved literal symbols get codes; using one is an error
            ll = lens_for(r, [256, 65, 286, 287], 288)
            kw = dict(hlit=288)
        elif what == "dynlen":
            ll = lens_for(r, [256, 65, 286, 287], 288)
            kw = dict(hlit=r.choice([287, 288]))
        elif what == "dyndist":
            ll = lens_for(r, [256, 65, 257, 258], 288)
            dl = lens_for(r, [0, 3, 30, 31], 32)
            kw = dict(hdist=r.choice([31, 32]))
        s.header(final, 2)
        w.b += table_bits(r, ll, dl, **kw) if any(ll) or kw else []
        lc = canon(ll)
        if what in ("noref", "loneref", "dynlen", "dyndist", "hlit287"):
            for _ in range(3):
                for k in lc:
                    if k != 256 and (k < 256 or r.random() < 0.6):
                        w.code(*lc[k])
                        w.num(r.randrange(32), r.randrange(6))
        w.num(r.randrange(1 << 30), 30)
    elif what == "repfirst":
        s.header(final, 2)
        cl = lens_for(r, [16, 1, 2, 18], 19, 7)
        w.num(0, 5), w.num(0, 5), w.num(15, 4)
        for k in CLORDER:
            w.num(cl[k], 3)
        w.code(*canon(cl)[16])
        w.num(r.randrange(4), 2)
        w.num(r.randrange(1 << 30), 30)
    elif what == "repover":
        s.header(final, 2)
        # 257 + 1 lengths: fill to just below the end, then repeat over it
        cl = lens_for(r, [0, 1, 16, 17, 18], 19, 7)
        cc = canon(cl)
        w.num(0, 5), w.num(0, 5), w.num(15, 4)
        for k in CLORDER:
            w.num(cl[k], 3)
        n = 0
        while n < 255:
            k = min(138, 255 - n)
            if k >= 11:
                w.code(*cc[18])
                w.num(k - 11, 7)
                n += k
            else:
                w.code(*cc[1 if n >= 254 else 0])
                n += 1
        sym, nb, lo = r.choice([(16, 2, 1), (17, 3, 1), (18, 7, 0)])
        w.code(*cc[sym])
        w.num(r.randint(lo, (1 << nb) - 1), nb)
        w.num(r.randrange(1 << 30), 30)
    elif what == "cut":
        b = rand_stream(r)
        return what, b[:r.randrange(len(b))]
    return what, s.w.bytes() + bytes(r.randrange(256) for _ in range(r.choice([0, 3])))


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.randrange(4)
        if not b:
            return bytes([r.randrange(256)])
        i = r.randrange(min(len(b), 12)) if r.random() < 0.5 else r.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << r.randrange(8)
        elif k == 1:
            b[i] = r.randrange(256)
        elif k == 2:
            b = b[:i]
        else:
            b.insert(i, r.randrange(256))
    return bytes(b)
