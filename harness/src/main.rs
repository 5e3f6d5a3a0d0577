//! Runs cases against librezip and logs what it did, one JSON object per case.
//!
//! usage: rzharness CASES OUT [FIRST]     (FIRST: number of leading cases to skip)
//! A case is a line of key=value words. Codes are numbers: a literal is its byte, a reference is
//! 65536 * length + distance. Metadata is run-length coded: -n is n times 'correct', 0 is 'literal'.
mod io_plan;
mod out;
mod side;

use std::collections::HashMap;
use std::fs;
use std::io::{BufRead, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use io_plan::*;
use librezip::all_refs::{AllRefs, Key};
use librezip::verif::{make_ref, BitReader, BitVec, BitWriter, Lookahead};
use librezip::{
    compressed_block, decompressed_block, decompressed_codes, gzip, parse_deflate, serialise_trace, trace, tracer,
    Block, CircularBuffer, Code, Config, Guesser, Looker, Technique, Trace,
};
use out::*;
use side::beside;

struct Case(HashMap<String, String>);

impl Case {
    fn parse(line: &str) -> Case {
        Case(
            line.split_whitespace()
                .map(|w| {
                    let (k, v) = w.split_once('=').expect("key=value");
                    (k.to_string(), v.to_string())
                })
                .collect(),
        )
    }
    fn s(&self, k: &str) -> &str {
        self.0.get(k).map(|s| s.as_str()).unwrap_or("")
    }
    fn n(&self, k: &str, default: i64) -> i64 {
        match self.0.get(k) {
            Some(v) => v.parse().expect("number"),
            None => default,
        }
    }
    fn hex(&self, k: &str) -> Vec<u8> {
        unhex(self.s(k))
    }
    fn plan(&self, k: &str) -> Plan {
        match self.0.get(k) {
            Some(v) => Plan::parse(v),
            None => Plan::none(),
        }
    }
}

fn unhex(s: &str) -> Vec<u8> {
    fn d(c: u8) -> u8 {
        (c as char).to_digit(16).expect("hex") as u8
    }
    s.as_bytes().chunks(2).map(|p| d(p[0]) << 4 | d(p[1])).collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn code_int(c: &Code) -> i64 {
    match *c {
        Code::Literal(b) => i64::from(b),
        Code::Reference(r) => 65536 * i64::from(r.run()) + i64::from(r.dist),
    }
}

fn int_code(n: i64) -> Code {
    if n < 256 {
        Code::Literal(n as u8)
    } else {
        Code::Reference(make_ref((n % 65536) as u16, (n / 65536) as u16))
    }
}

fn codes_of(s: &str) -> Vec<Code> {
    if s.is_empty() {
        return vec![];
    }
    s.split(',')
        .flat_map(|w| match w.split_once('*') {
            Some((n, c)) => vec![int_code(c.parse().unwrap()); n.parse().unwrap()],
            None => vec![int_code(w.parse().unwrap())],
        })
        .collect()
}

fn codes_json(c: &[Code]) -> String {
    ints(c.iter().map(code_int))
}

fn traces_rle(t: &[Trace]) -> Vec<i64> {
    let mut v: Vec<i64> = Vec::new();
    for x in t {
        match *x {
            Trace::Correct => match v.last_mut() {
                Some(l) if *l < 0 => *l -= 1,
                _ => v.push(-1),
            },
            Trace::ActuallyLiteral => v.push(0),
            Trace::Actually(r) => v.push(code_int(&Code::Reference(r))),
        }
    }
    v
}

fn traces_of(s: &str) -> Vec<Trace> {
    let mut v = Vec::new();
    for w in s.split(',').filter(|w| !w.is_empty()) {
        let n: i64 = w.parse().unwrap();
        if n < 0 {
            v.extend(vec![Trace::Correct; -n as usize]);
        } else if n == 0 {
            v.push(Trace::ActuallyLiteral);
        } else {
            v.push(Trace::Actually(make_ref((n % 65536) as u16, (n / 65536) as u16)));
        }
    }
    v
}

/// The bits, first one least significant, in bytes; zero padded.
fn packed(v: &BitVec) -> Vec<u8> {
    let bits: Vec<bool> = v.iter().collect();
    bits.chunks(8)
        .map(|c| c.iter().enumerate().map(|(i, &b)| u8::from(b) << i).sum())
        .collect()
}

fn block_json(b: &Block) -> String {
    match b {
        Block::Uncompressed(d) => Obj::new().n("k", 0).bytes("d", d).end(),
        Block::FixedHuffman(c) => Obj::new().n("k", 1).raw("c", &codes_json(c)).end(),
        Block::DynamicHuffman { trees, codes } => Obj::new()
            .n("k", 2)
            .n("tn", trees.len() as i64)
            .bytes("t", &packed(trees))
            .raw("c", &codes_json(codes))
            .end(),
    }
}

fn bitvec_of(s: &str) -> BitVec {
    let mut v = BitVec::new();
    for c in s.bytes() {
        v.push(c == b'1');
    }
    v
}

/// "0:hex;1:codes;2:bits:codes"
fn blocks_of(s: &str) -> Vec<Block> {
    s.split(';')
        .filter(|w| !w.is_empty())
        .map(|w| {
            let p: Vec<&str> = w.split(':').collect();
            match p[0] {
                "0" => Block::Uncompressed(unhex(p[1])),
                "1" => Block::FixedHuffman(codes_of(p[1])),
                "2" => Block::DynamicHuffman { trees: bitvec_of(p[1]), codes: codes_of(p[2]) },
                _ => panic!("block kind"),
            }
        })
        .collect()
}

/// Run f; "ok", "err" or "panic", and what it returned.
fn guarded<T, F: FnOnce() -> Result<T, anyhow::Error>>(f: F) -> (&'static str, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => ("ok", Some(v)),
        Ok(Err(_)) => ("err", None),
        Err(_) => ("panic", None),
    }
}

fn status(s: &str) -> &str {
    s
}

/// The blocks, how they ended, and how many more items came of asking three times after that.
fn parse_blocks(reader: &mut PlanReader) -> (Vec<Block>, &'static str, i64) {
    let mut blocks = Vec::new();
    let mut more = 0;
    let (st, _) = guarded(|| {
        let mut it = parse_deflate(&mut *reader);
        let end = loop {
            beside();
            match it.next() {
                None => break Ok(()),
                Some(Ok(b)) => blocks.push(b),
                Some(Err(e)) => break Err(e),
            }
        };
        for _ in 0..3 {
            more += i64::from(it.next().is_some());
        }
        end
    });
    (blocks, if st == "ok" { "end" } else { st }, more)
}

fn recompress(blocks: &[Block], plan: Plan) -> (&'static str, Vec<u8>) {
    let mut sink = PlanWriter::new(plan);
    let (st, _) = guarded(|| {
        let mut w = BitWriter::new(&mut sink);
        for (i, b) in blocks.iter().enumerate() {
            w.write_bit(i + 1 == blocks.len())?;
            compressed_block(&mut w, b)?;
            beside();
        }
        w.align()?;
        Ok(())
    });
    (st, sink.data)
}

/// pieces: that many codes at a time; 0: whole blocks. Also the history afterwards, if there is no error.
fn decompress(blocks: &[Block], cap: u16, plan: Plan, pieces: usize) -> (&'static str, Vec<u8>, usize, Vec<u8>) {
    let mut sink = PlanWriter::new(plan);
    let mut done = 0;
    let (st, hist) = guarded(|| {
        let mut dict = CircularBuffer::with_capacity(cap);
        for b in blocks {
            beside();
            match b {
                Block::FixedHuffman(codes) | Block::DynamicHuffman { codes, .. } if pieces > 0 => {
                    for part in codes.chunks(pieces) {
                        decompressed_codes(&mut sink, &mut dict, part)?;
                    }
                }
                b => decompressed_block(&mut sink, &mut dict, b)?,
            }
            done += 1;
        }
        Ok(dict.vec())
    });
    (st, sink.data, done, hist.unwrap_or_default())
}

fn op_codec(c: &Case) -> Obj {
    let inp = c.hex("inp");
    let mut reader = PlanReader::new(&inp, c.plan("rp"));
    let (blocks, pst, more) = parse_blocks(&mut reader);
    let used = reader.pos;
    codec_record(c, &inp, &blocks, pst, used).n("more", more)
}

fn codec_record(c: &Case, inp: &[u8], blocks: &[Block], pst: &str, used: usize) -> Obj {
    let cap = c.n("wcap", 32768);
    let parts = if c.s("do").is_empty() { "dr" } else { c.s("do") };
    let (dst, out, db, mut hist) = if parts.contains('d') {
        decompress(blocks, cap as u16, c.plan("dp"), c.n("pc", 0) as usize)
    } else {
        ("na", vec![], 0, vec![])
    };
    if c.n("wanth", 0) == 0 {
        hist.clear();
    }
    let (rst, rec) = if pst == "end" && parts.contains('r') {
        recompress(blocks, c.plan("cp"))
    } else {
        ("na", vec![])
    };
    let fail = |k: &str| c.plan(k).fail.map(|x| x as i64).unwrap_or(-1);
    Obj::new()
        .bytes("inp", inp)
        .n("rfail", fail("rp"))
        .n("dfail", fail("dp"))
        .n("cfail", fail("cp"))
        .n("wcap", cap)
        .list("blocks", &blocks.iter().map(block_json).collect::<Vec<_>>())
        .s("pst", status(pst))
        .n("used", used as i64)
        .s("dst", dst)
        .n("db", db as i64)
        .bytes("out", &out)
        .n("wanth", c.n("wanth", 0))
        .bytes("hist", &hist)
        .n("wantr", i64::from(parts.contains('r')))
        .s("rst", rst)
        .bytes("rec", &rec)
}

/// Serialise given blocks, parse the result back; logged as a codec event over the bytes written.
fn op_encode(c: &Case) -> Obj {
    let blocks = blocks_of(c.s("blocks"));
    let (st, bytes) = recompress(&blocks, Plan::none());
    if st != "ok" {
        return codec_record(c, &bytes, &blocks, st, 0).n("more", 0);
    }
    let mut reader = PlanReader::new(&bytes, Plan::none());
    let (back, pst, more) = parse_blocks(&mut reader);
    let pst = if pst == "end" && back != blocks { "differs" } else { pst };
    codec_record(c, &bytes, &blocks, pst, reader.pos).n("more", more)
}

fn op_window(c: &Case) -> Obj {
    let cap = c.n("cap", 1);
    let mut ev = Vec::new();
    let mut buf = CircularBuffer::with_capacity(cap as u16);
    for w in c.s("ops").split(';').filter(|w| !w.is_empty()) {
        beside();
        let (o, a) = w.split_at(1);
        let e = Obj::new().s("o", o);
        ev.push(
            match o {
                "p" => {
                    let b = unhex(a)[0];
                    let (st, _) = guarded(|| Ok(buf.push(b)));
                    e.s("st", st).bytes("r", &[b])
                }
                "x" => {
                    let v = unhex(a);
                    let (st, _) = guarded(|| Ok(buf.extend(&v)));
                    e.s("st", st).bytes("r", &v)
                }
                // X: n pseudo-random bytes from a seed
                "X" => {
                    let (n, seed) = a.split_once(':').unwrap();
                    let v = pseudo(n.parse().unwrap(), seed.parse().unwrap());
                    let (st, _) = guarded(|| Ok(buf.extend(&v)));
                    e.s("st", st).bytes("r", &v)
                }
                "c" => {
                    let (d, n) = a.split_once(':').unwrap();
                    let (d, n): (u16, u16) = (d.parse().unwrap(), n.parse().unwrap());
                    let mut sink = Vec::new();
                    let (st, _) = guarded(|| buf.copy(d, n, &mut sink));
                    e.s("st", st).n("d", d.into()).n("n", n.into()).bytes("r", &sink)
                }
                "g" => {
                    let d: u16 = a.parse().unwrap();
                    let (st, v) = guarded(|| Ok(buf.get_at_dist(d)));
                    e.s("st", st).n("d", d.into()).bytes("r", &[v.unwrap_or(0)])
                }
                "v" => {
                    let (st, v) = guarded(|| Ok(buf.vec()));
                    e.s("st", st).bytes("r", &v.unwrap_or_default())
                }
                "l" => {
                    let (st, v) = guarded(|| Ok(buf.len()));
                    e.s("st", st).n("n", v.unwrap_or(0).into())
                }
                "k" => {
                    let (st, v) = guarded(|| Ok(buf.capacity()));
                    e.s("st", st).n("n", v.unwrap_or(0).into())
                }
                _ => panic!("window op"),
            }
            .end(),
        );
    }
    Obj::new().n("cap", cap).list("ev", &ev)
}

fn pseudo(n: usize, seed: u32) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2654435761).wrapping_add(12345);
    (0..n)
        .map(|_| {
            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
            (x >> 24) as u8
        })
        .collect()
}

fn config_of(s: &str) -> Config {
    if s == "spicy" {
        return Config::spicy();
    }
    if let Some(l) = s.strip_prefix("lazy") {
        let mut c = Config::gzip(l.parse().unwrap());
        c.lookahead = Lookahead::Gzip;
        return c;
    }
    Config::gzip(s.strip_prefix("g").expect("preset").parse().unwrap())
}

fn limit_of(c: &Case, config: &Config) -> u16 {
    match c.n("lim", -1) {
        -1 => config.wams.insert_only_below_length.unwrap_or(u16::MAX),
        n => n as u16,
    }
}

/// Codes for the data that mostly follow the predictions: `pct` of 1000 are something else.
fn follow(pre: &[u8], dat: &[u8], config: Config, lim: u16, pct: u32, seed: u32) -> Vec<Code> {
    let mut win = pre.to_vec();
    win.extend(dat);
    let refs = AllRefs::with_sixteen(pre, dat, lim);
    let tech = Technique::new(config, &refs);
    let mut scanner = tech.scanner();
    let mut out = Vec::new();
    let mut pos = pre.len();
    let mut x = seed | 1;
    let mut rand = move |n: u32| {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        x % n
    };
    let fits = |pos: usize, c: &Code| match *c {
        Code::Literal(b) => pos < win.len() && win[pos] == b,
        Code::Reference(r) => {
            let (d, n) = (usize::from(r.dist), usize::from(r.run()));
            d <= pos && pos + n <= win.len() && (0..n).all(|i| win[pos + i] == win[pos + i - d])
        }
    };
    while pos < win.len() {
        let g = scanner.codes();
        for want in if g.is_empty() { vec![Code::Literal(win[pos])] } else { g } {
            if pos >= win.len() {
                break;
            }
            let off = rand(1000) < pct;
            let mut code = want;
            if off {
                code = Code::Literal(win[pos]);
                if let Code::Reference(r) = want {
                    if r.run() > 3 && rand(2) == 0 {
                        let n = 3 + rand(u32::from(r.run()) - 3) as u16;
                        code = Code::Reference(make_ref(r.dist, n));
                    }
                } else {
                    // any reference, nearest 200 places first
                    let k = 1 + rand(200) as usize;
                    if k <= pos {
                        let n = (0..258.min(win.len() - pos)).take_while(|&i| win[pos + i] == win[pos + i - k]).count();
                        if n >= 3 {
                            code = Code::Reference(make_ref(k as u16, n as u16));
                        }
                    }
                }
            }
            if !fits(pos, &code) {
                code = Code::Literal(win[pos]);
            }
            let same = code == want;
            scanner.feedback(code);
            pos += usize::from(code.emitted_bytes());
            out.push(code);
            if !same {
                break;
            }
        }
    }
    out
}

/// Somebody else's use of the same data, or of the same technique: no business of the scanner's.
struct Other<'x, 'p, 'd> {
    win: &'x [u8],
    np: usize,
    refs: &'x AllRefs<'p, 'd>,
    config: Config,
}

impl<'x, 'p, 'd> Other<'x, 'p, 'd> {
    fn new(win: &'x [u8], np: usize, refs: &'x AllRefs<'p, 'd>, config: Config) -> Self {
        Other { win, np, refs, config }
    }

    /// 1: literals only, asking all along (the last 3000 places of more); 4: the same through
    /// another technique; 8: candidates, everything hidden or nothing.
    fn before(&self, used: i64, tech: &Technique) {
        if used & 1 != 0 {
            self.walk(tech);
        }
        if used & 4 != 0 {
            let mut config = Config::gzip(3);
            config.lookahead = self.config.lookahead;
            self.walk(&Technique::new(config, self.refs));
        }
        if used & 8 != 0 {
            let all = [(0usize, 65535u16)];
            for p in self.np.max(self.win.len().saturating_sub(3000))..self.win.len() {
                for hide in [&all[..], &[]] {
                    if let Some(mut it) = self.refs.at(p, hide) {
                        it.next();
                    }
                }
            }
        }
    }

    fn walk(&self, tech: &Technique) {
        let mut s = tech.scanner();
        let from = self.win.len().saturating_sub(3000);
        while s.pos < self.win.len() {
            if s.pos >= from {
                s.codes();
            }
            s.feedback(Code::Literal(self.win[s.pos]));
        }
    }
}

fn op_trace(c: &Case) -> Obj {
    let pre = c.hex("pre");
    let dat = c.hex("dat");
    let config = config_of(c.s("cfg"));
    let lim = limit_of(c, &config);
    let codes = match c.s("codes").strip_prefix('@') {
        Some(w) => {
            let (pct, seed) = w.split_once(':').unwrap();
            match guarded(|| Ok(follow(&pre, &dat, config, lim, pct.parse().unwrap(), seed.parse().unwrap()))) {
                (_, Some(v)) => v,
                _ => dat.iter().map(|&b| Code::Literal(b)).collect(),
            }
        }
        None => codes_of(c.s("codes")),
    };
    let stride = c.n("stride", 1);
    let used = c.n("used", 0);
    let mut win = pre.clone();
    win.extend(&dat);

    let mut steps = Vec::new();
    let mut tr = Vec::new();
    let mut res = Vec::new();
    let mut sst = "na";
    let (tst, _) = guarded(|| {
        let refs = AllRefs::with_sixteen(&pre, &dat, lim);
        let tech = Technique::new(config, &refs);
        Other::new(&win, pre.len(), &refs, config).before(used, &tech);
        let mut scanner = tech.scanner();
        sst = "panic";
        let mut beside = tech.scanner();
        for (i, code) in codes.iter().enumerate() {
            if used & 2 != 0 {
                while beside.pos < scanner.pos {
                    beside.feedback(Code::Literal(win[beside.pos]));
                }
                if beside.pos < win.len() {
                    beside.codes();
                }
            }
            side::beside_often();
            if stride > 0 && (i as i64 % stride == 0) {
                let g = scanner.codes();
                let pos = scanner.pos as i64;
                let again = scanner.codes() == g;
                steps.push(
                    Obj::new()
                        .n("i", i as i64)
                        .n("p", pos)
                        .n("same", again as i64)
                        .raw("g", &codes_json(&g))
                        .end(),
                );
            }
            scanner.feedback(*code);
        }
        sst = "ok";
        tr = trace::trace(&codes, &tech);
        Ok(())
    });
    let (rst, _) = if tst == "ok" {
        guarded(|| {
            let refs = AllRefs::with_sixteen(&pre, &dat, lim);
            let tech = Technique::new(config, &refs);
            Other::new(&win, pre.len(), &refs, config).before(used, &tech);
            res = trace::restore(&tr, &tech);
            Ok(())
        })
    } else {
        ("na", None)
    };
    // the public one-call entry point, for the gzip levels with their own limit
    let mut tg = "na";
    if let (Some(l), -1) = (c.s("cfg").strip_prefix("g"), c.n("lim", -1)) {
        let (st, v) = guarded(|| Ok(tracer::try_gzip(l.parse().unwrap(), &pre, &dat, &codes)));
        tg = if st == "ok" && v.unwrap() != tr { "differs" } else { st };
    }
    Obj::new()
        .bytes("win", &win)
        .n("np", pre.len() as i64)
        .s("cfg", c.s("cfg"))
        .n("lim", i64::from(lim))
        .raw("codes", &codes_json(&codes))
        .s("sst", sst)
        .list("steps", &steps)
        .s("tst", tst)
        .ints("tr", traces_rle(&tr))
        .s("rst", rst)
        .raw("res", &codes_json(&res))
        .s("tg", tg)
}

fn op_better(c: &Case) -> Obj {
    let pre = c.hex("pre");
    let dat = c.hex("dat");
    let config = config_of(c.s("cfg"));
    let lim = limit_of(c, &config);
    let codes = match c.s("codes").strip_prefix('@') {
        Some(w) => {
            let (pct, seed) = w.split_once(':').unwrap();
            match guarded(|| Ok(follow(&pre, &dat, config, lim, pct.parse().unwrap(), seed.parse().unwrap()))) {
                (_, Some(v)) => v,
                _ => dat.iter().map(|&b| Code::Literal(b)).collect(),
            }
        }
        None => codes_of(c.s("codes")),
    };
    let stride = c.n("stride", 1).max(1) as usize;
    let runs = pairs_of(c.s("runs"));       // (offset, run in hand; 0 is none)
    let mut win = pre.clone();
    win.extend(&dat);
    let mut lazy = config;
    lazy.lookahead = Lookahead::Gzip;
    let refs = AllRefs::with_sixteen(&pre, &dat, lim);
    let (tech, ltech) = (Technique::new(config, &refs), Technique::new(lazy, &refs));
    let (mut scanner, mut lscanner) = (tech.scanner(), ltech.scanner());
    let mut steps = Vec::new();
    let mut k = 0;
    let (st, _) = guarded(|| {
        for (i, code) in codes.iter().enumerate() {
            if i % stride == 0 {
                let mut q = Vec::new();
                for _ in 0..runs.len().min(3) {
                    let (off, run) = runs[k % runs.len()];
                    k += 1;
                    let p = scanner.pos + off;
                    if p < win.len() {
                        let (lit, r) = scanner.best_candidate_better_than(p, if run == 0 { None } else { Some(run) });
                        q.push(
                            Obj::new()
                                .n("p", p as i64)
                                .n("run", i64::from(run))
                                .n("lit", i64::from(lit))
                                .n("r", r.map(|r| code_int(&Code::Reference(r))).unwrap_or(0))
                                .end(),
                        );
                    }
                }
                let g = lscanner.codes();
                steps.push(Obj::new().n("i", i as i64).n("p", scanner.pos as i64).list("q", &q).raw("g", &codes_json(&g)).end());
            }
            scanner.feedback(*code);
            lscanner.feedback(*code);
        }
        Ok(())
    });
    Obj::new()
        .bytes("win", &win)
        .n("np", pre.len() as i64)
        .s("cfg", c.s("cfg"))
        .n("lim", i64::from(lim))
        .raw("codes", &codes_json(&codes))
        .s("st0", st)
        .list("steps", &steps)
}

fn pairs_of(s: &str) -> Vec<(usize, u16)> {
    s.split(',')
        .filter(|w| !w.is_empty())
        .map(|w| {
            let (a, b) = w.split_once(':').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect()
}

fn op_cands(c: &Case) -> Obj {
    let pre = c.hex("pre");
    let dat = c.hex("dat");
    let lim = c.n("lim", 65535) as u16;
    let obs = pairs_of(c.s("obs"));
    let obs2 = if c.s("obs2") == "none" { None } else { Some(pairs_of(c.s("obs2"))) };
    let max = c.n("max", 100000) as usize;
    let mut q = Vec::new();
    let refs = AllRefs::with_sixteen(&pre, &dat, lim);
    for w in c.s("q").split(',').filter(|w| !w.is_empty()) {
        let p: usize = w.parse().unwrap();
        let (st, v) = guarded(|| {
            // asked before, and still being asked, with other places hidden
            let mut before = obs2.as_ref().and_then(|o| refs.at(p, o));
            if let Some(it) = before.as_mut() {
                it.next();
            }
            Ok(refs.at(p, &obs).map(|it| it.take(max).inspect(|_| side::beside_often()).collect::<Vec<_>>()))
        });
        let (some, v) = match v {
            Some(Some(v)) => (1, v),
            _ => (0, vec![]),
        };
        q.push(
            Obj::new()
                .n("p", p as i64)
                .s("st", st)
                .n("some", some)
                .ints("r", v.iter().map(|r| code_int(&Code::Reference(*r))))
                .end(),
        );
    }
    let mut win = pre.clone();
    win.extend(&dat);
    let obs: Vec<String> = obs.iter().map(|&(a, b)| ints([a as i64, b as i64])).collect();
    Obj::new()
        .bytes("win", &win)
        .n("np", pre.len() as i64)
        .n("lim", i64::from(lim))
        .n("max", max as i64)
        .list("obs", &obs)
        .list("q", &q)
}

fn op_hash(c: &Case) -> Obj {
    let d = c.hex("inp");
    let hs: Vec<i64> = d
        .chunks(3)
        .map(|k| i64::from(Key::from((k[0], k[1], k[2])).sixteen_hash_16()))
        .collect();
    Obj::new().bytes("inp", &d).ints("hs", hs)
}

fn op_tfw(c: &Case) -> Obj {
    let t = traces_of(c.s("tr"));
    let mut ser = Vec::new();
    let mut back = Vec::new();
    let (st, _) = guarded(|| {
        ser = serialise_trace::write(&t);
        back = serialise_trace::read(&ser[..])?;
        if serialise_trace::verify(&t) != ser {
            anyhow::bail!("verify differs");
        }
        Ok(())
    });
    Obj::new().s("st", st).ints("tr", traces_rle(&t)).bytes("ser", &ser).ints("rb", traces_rle(&back)).n("nrb", back.len() as i64)
}

fn op_tfr(c: &Case) -> Obj {
    let inp = c.hex("inp");
    let plan = c.plan("rp");
    let fail = plan.fail.map(|x| x as i64).unwrap_or(-1);
    let (st, v) = guarded(|| serialise_trace::read(PlanReader::new(&inp, plan)));
    let v = v.unwrap_or_default();
    Obj::new().bytes("inp", &inp).n("rfail", fail).s("st", st).ints("tr", traces_rle(&v))
}

fn op_gzhdr(c: &Case) -> Obj {
    let inp = c.hex("inp");
    let plan = c.plan("rp");
    let fail = plan.fail.map(|x| x as i64).unwrap_or(-1);
    let mut reader = PlanReader::new(&inp, plan);
    let (st, v) = guarded(|| gzip::discard_header(&mut reader));
    Obj::new()
        .bytes("inp", &inp)
        .n("rfail", fail)
        .s("st", st)
        .bytes("hdr", &v.unwrap_or_default())
        .n("used", reader.pos as i64)
}

fn op_bits(c: &Case) -> Obj {
    let init = c.hex("init");
    let mut ev = Vec::new();
    let mut v = if c.s("init").is_empty() { BitVec::new() } else { BitVec::from_slice(&init) };
    for w in c.s("ops").split(',').filter(|w| !w.is_empty()) {
        let (o, a) = w.split_at(1);
        let e = Obj::new().s("o", o);
        ev.push(
            match o {
                "+" | "-" => {
                    let (st, _) = guarded(|| Ok(v.push(o == "+")));
                    e.s("st", st)
                }
                "p" => {
                    let (st, r) = guarded(|| Ok(v.pop()));
                    e.s("st", st).n("r", r.flatten().map(i64::from).unwrap_or(-1))
                }
                "b" => {
                    let (st, r) = guarded(|| Ok(v.pop_byte()));
                    e.s("st", st).n("r", r.flatten().map(i64::from).unwrap_or(-1))
                }
                "g" => {
                    let n: usize = a.parse().unwrap();
                    let (st, r) = guarded(|| Ok(v.get(n)));
                    e.s("st", st).n("a", n as i64).n("r", r.map(i64::from).unwrap_or(-1))
                }
                "l" => {
                    let (st, r) = guarded(|| Ok((v.len(), v.is_empty())));
                    let (l, em) = r.unwrap_or((0, false));
                    e.s("st", st).n("r", l as i64).n("e", i64::from(em))
                }
                "i" => {
                    let (st, r) = guarded(|| Ok(v.iter().map(i64::from).collect::<Vec<_>>()));
                    e.s("st", st).ints("b", r.unwrap_or_default())
                }
                // q: equal to another vector of the given bits, built by pushing, both ways round,
                // and listed the same way
                "q" => {
                    let other = bitvec_of(a);
                    let (st, r) = guarded(|| {
                        Ok((v == other, other == v, format!("{:?}", v) == format!("{:?}", other)))
                    });
                    let (x, y, z) = r.unwrap_or((false, false, false));
                    e.s("st", st)
                        .ints("b", a.bytes().map(|c| i64::from(c == b'1')))
                        .n("r", i64::from(x))
                        .n("s", i64::from(y))
                        .n("f", i64::from(z))
                }
                // r: build the same bits again, in place of this vector, through clone
                "r" => {
                    v = v.clone();
                    e.s("st", "ok")
                }
                _ => panic!("bits op"),
            }
            .end(),
        );
    }
    Obj::new().ints("init", init.iter().map(|&b| i64::from(b))).list("ev", &ev)
}

/// Bit writer, then bit reader over its output (plus trailing bytes), with the same layout.
fn op_bitio(c: &Case) -> Obj {
    let mut sink = PlanWriter::new(c.plan("wp"));
    let ops: Vec<&str> = c.s("ops").split(',').filter(|w| !w.is_empty()).collect();
    let mut wev = Vec::new();
    let (wst, _) = guarded(|| {
        let mut w = BitWriter::new(&mut sink);
        for op in &ops {
            let (o, a) = op.split_at(1);
            match o {
                "b" => w.write_bit(a == "1")?,
                "v" => {
                    let (n, x) = a.split_once(':').unwrap();
                    w.write_bits_val(n.parse().unwrap(), x.parse().unwrap())?
                }
                "s" => w.write_vec(&bitvec_of(a))?,
                "a" => w.align()?,
                "d" => w.write_length_prefixed(&unhex(a))?,
                _ => panic!("bitio op"),
            }
        }
        w.align()?;
        let _ = w.into_inner();
        Ok(())
    });
    for op in &ops {
        let (o, a) = op.split_at(1);
        let e = Obj::new().s("o", o);
        wev.push(
            match o {
                "b" => e.n("n", 1).n("x", i64::from(a == "1")),
                "v" => {
                    let (n, x) = a.split_once(':').unwrap();
                    e.n("n", n.parse().unwrap()).n("x", x.parse().unwrap())
                }
                "s" => e.n("n", a.len() as i64).ints("b", a.bytes().map(|c| i64::from(c == b'1'))),
                "d" => e.n("n", a.len() as i64 / 2).bytes("b", &unhex(a)),
                _ => e.n("n", 0),
            }
            .end(),
        );
    }
    let tail = c.hex("tail");
    let mut all = sink.data.clone();
    all.extend(&tail);
    let mut reader = PlanReader::new(&all, c.plan("rp"));
    let mut got = Vec::new();
    let (rst, _) = if wst == "ok" {
        guarded(|| {
            let mut r = BitReader::new(&mut reader);
            for op in &ops {
                let (o, a) = op.split_at(1);
                match o {
                    "b" => got.push(ints([i64::from(r.read_bit()?)])),
                    "v" => {
                        let n = a.split_once(':').unwrap().0;
                        got.push(ints([i64::from(r.read_part(n.parse().unwrap())?)]))
                    }
                    "s" => {
                        let mut b = Vec::new();
                        for _ in 0..a.len() {
                            b.push(i64::from(r.read_bit()?));
                        }
                        got.push(ints(b));
                    }
                    "a" => {
                        r.align()?;
                        got.push(ints([]));
                    }
                    "d" => {
                        r.align()?;
                        got.push(ints(r.read_length_prefixed()?.into_iter().map(i64::from)));
                    }
                    _ => panic!("bitio op"),
                }
            }
            r.align()?;
            let _ = r.into_inner();
            Ok(())
        })
    } else {
        ("na", None)
    };
    Obj::new()
        .list("ops", &wev)
        .s("wst", wst)
        .bytes("out", &sink.data)
        .n("wfail", c.plan("wp").fail.map(|x| x as i64).unwrap_or(-1))
        .s("rst", rst)
        .list("got", &got)
        .n("used", reader.pos as i64)
}

fn op_filter(c: &Case) -> Obj {
    use librezip::filter::{FilterRead, FilterWrite};
    let data = c.hex("inp");
    let ops: Vec<(&str, usize)> = c
        .s("ops")
        .split(',')
        .filter(|w| !w.is_empty())
        .map(|w| {
            let (k, n) = w.split_once('.').expect("kind.size");
            (k, n.parse().unwrap())
        })
        .collect();
    let mut ev = Vec::new();
    let plan = c.plan("rp");
    let mut twin_r = PlanReader::new(&data, plan.clone());
    let mut twin_w = PlanWriter::new(plan.clone());
    let dir = c.s("dir").to_string();
    let mut passed = Vec::new();
    let (st, hash) = guarded(|| {
        Ok(if dir == "r" {
            let mut inner = PlanReader::new(&data, plan);
            let h = {
                let mut f = FilterRead::new(&mut inner);
                for &(op, n) in &ops {
                    let before = twin_r.pos;
                    let (x, a) = read_op(op, n, &mut f);
                    let (y, b) = read_op(op, n, &mut twin_r);
                    // what a failed call leaves in its buffer is nobody's business
                    let same = a == b || y.is_err();
                    let adv = twin_r.pos - before;
                    ev.push(filter_event(op, n, &x, &y, adv, if y.is_ok() { &a } else { &[] }, same));
                }
                f.hash()
            };
            passed = data[..inner.pos].to_vec();
            h
        } else {
            let mut inner = PlanWriter::new(plan);
            let mut at = 0usize;
            let h = {
                let mut f = FilterWrite::new(&mut inner);
                for &(op, n) in &ops {
                    let before = twin_w.data.len();
                    let buf = &data[at..data.len().min(at + n)];
                    let x = write_op(op, buf, &mut f);
                    let y = write_op(op, buf, &mut twin_w);
                    let adv = twin_w.data.len() - before;
                    ev.push(filter_event(op, buf.len(), &x, &y, adv, &[], true));
                    at += adv;
                }
                f.hash()
            };
            passed = inner.data.clone();
            h
        })
    });
    Obj::new()
        .bytes("inp", &data)
        .s("dir", &dir)
        .s("st", st)
        .list("ev", &ev)
        .bytes("passed", &passed)
        .s("hash", &hex(&hash.unwrap_or_default()))
}

/// One call through Read: the result as a count, and what was read.
fn read_op<R: Read>(op: &str, n: usize, r: &mut R) -> (std::io::Result<usize>, Vec<u8>) {
    let mut buf = vec![0xaa; n];
    match op {
        "one" => {
            let x = r.read(&mut buf);
            (x, buf)
        }
        "vec" => {
            let (head, tail) = buf.split_at_mut(n / 3);
            let (mid, tail) = tail.split_at_mut(n / 3);
            let x = r.read_vectored(&mut [
                std::io::IoSliceMut::new(head),
                std::io::IoSliceMut::new(mid),
                std::io::IoSliceMut::new(tail),
            ]);
            (x, buf)
        }
        "all" => {
            let x = r.read_exact(&mut buf).map(|()| n);
            (x, buf)
        }
        "end" => {
            buf.clear();
            let x = r.take(n as u64).read_to_end(&mut buf);
            (x, buf)
        }
        "rest" => {
            buf.clear();
            let x = r.read_to_end(&mut buf);
            (x, buf)
        }
        "bytes" => {
            buf.clear();
            let mut x = Ok(0);
            for b in r.bytes().take(n) {
                match b {
                    Ok(b) => buf.push(b),
                    Err(e) => {
                        x = Err(e);
                        break;
                    }
                }
            }
            (x.map(|_| buf.len()), buf)
        }
        _ => panic!("no such read: {}", op),
    }
}

fn write_op<W: Write>(op: &str, buf: &[u8], w: &mut W) -> std::io::Result<usize> {
    let third = buf.len() / 3;
    match op {
        "one" => w.write(buf),
        "vec" => w.write_vectored(&[
            std::io::IoSlice::new(&buf[..third]),
            std::io::IoSlice::new(&buf[third..2 * third]),
            std::io::IoSlice::new(&buf[2 * third..]),
        ]),
        "all" => w.write_all(buf).map(|()| buf.len()),
        "fmt" => {
            let s = String::from_utf8_lossy(buf);
            let (a, b) = s.split_at(third);
            write!(w, "{}{}", a, b).map(|()| buf.len())
        }
        "flush" => w.flush().map(|()| 0),
        _ => panic!("no such write: {}", op),
    }
}

fn filter_event(
    op: &str,
    n: usize,
    x: &std::io::Result<usize>,
    y: &std::io::Result<usize>,
    adv: usize,
    buf: &[u8],
    same: bool,
) -> String {
    let show = |r: &std::io::Result<usize>| match r {
        Ok(n) => *n as i64,
        Err(e) => match e.kind() {
            std::io::ErrorKind::Interrupted => -1,
            std::io::ErrorKind::UnexpectedEof => -2,
            std::io::ErrorKind::WouldBlock => -3,
            std::io::ErrorKind::BrokenPipe => -4,
            std::io::ErrorKind::WriteZero => -6,
            std::io::ErrorKind::TimedOut => -7,
            std::io::ErrorKind::InvalidData => -8,
            std::io::ErrorKind::InvalidInput => -9,
            std::io::ErrorKind::ConnectionReset => -10,
            std::io::ErrorKind::OutOfMemory => -11,
            std::io::ErrorKind::Unsupported => -12,
            _ => -100 - e.raw_os_error().unwrap_or(0) as i64,
        },
    };
    // n: asked for; x: what the filter returned; y: what a stream like the inner one returned to the
    // same call, and adv: how many bytes passed through it
    Obj::new()
        .s("op", op)
        .n("n", n as i64)
        .n("x", show(x))
        .n("y", show(y))
        .n("adv", adv as i64)
        .n("same", i64::from(same))
        .bytes("b", &buf[..if show(x) > 0 { (show(x) as usize).min(buf.len()) } else { 0 }])
        .end()
}

struct Meta {
    block: Block, // with the codes removed
    len: usize,
    ser: Vec<u8>,
}

/// gzip file -> (header, metadata, data, rest) -> gzip file
fn op_e2e(c: &Case) -> Obj {
    let gz = c.hex("inp");
    let cfg = c.s("cfg");
    let config = config_of(cfg);
    let lim = limit_of(c, &config);
    let mut stage = "header";
    let mut rebuilt = Vec::new();
    let mut kinds: Vec<i64> = Vec::new();
    let mut sizes: Vec<i64> = Vec::new();
    let mut data = Vec::new();
    let (st, _) = guarded(|| {
        let mut reader = &gz[..];
        let header = gzip::discard_header(&mut reader)?;
        let mut dict = CircularBuffer::new();
        let mut metas: Vec<Meta> = Vec::new();
        stage = "parse";
        let mut blocks = Vec::new();
        for b in parse_deflate(&mut reader) {
            blocks.push(b?);
        }
        for b in blocks {
            beside();
            let preroll = dict.vec();
            let mut part = Vec::new();
            stage = "decompress";
            decompressed_block(&mut part, &mut dict, &b)?;
            stage = "trace";
            let (block, ser) = match b {
                Block::Uncompressed(_) => {
                    kinds.push(0);
                    (Block::Uncompressed(vec![]), vec![])
                }
                Block::FixedHuffman(codes) => {
                    kinds.push(1);
                    (Block::FixedHuffman(vec![]), make_trace(&preroll, &part, &codes, config, lim))
                }
                Block::DynamicHuffman { trees, codes } => {
                    kinds.push(2);
                    let ser = make_trace(&preroll, &part, &codes, config, lim);
                    (Block::DynamicHuffman { trees, codes: vec![] }, ser)
                }
            };
            sizes.push(ser.len() as i64);
            metas.push(Meta { block, len: part.len(), ser });
            data.extend(part);
        }
        let rest = reader.to_vec();

        stage = "rebuild";
        let mut w = BitWriter::new(Vec::new());
        let mut at = 0usize;
        let n = metas.len();
        for (i, m) in metas.into_iter().enumerate() {
            let pre = &data[at.saturating_sub(32768)..at];
            let part = &data[at..at + m.len];
            at += m.len;
            let b = match m.block {
                Block::Uncompressed(_) => Block::Uncompressed(part.to_vec()),
                Block::FixedHuffman(_) => {
                    Block::FixedHuffman(use_trace(pre, part, &m.ser, config, lim)?)
                }
                Block::DynamicHuffman { trees, .. } => Block::DynamicHuffman {
                    trees,
                    codes: use_trace(pre, part, &m.ser, config, lim)?,
                },
            };
            w.write_bit(i + 1 == n)?;
            beside();
            compressed_block(&mut w, &b)?;
        }
        w.align()?;
        rebuilt = header;
        rebuilt.extend(w.into_inner());
        rebuilt.extend(rest);
        stage = "done";
        Ok(())
    });
    Obj::new()
        .bytes("inp", &gz)
        .s("cfg", cfg)
        .s("st", st)
        .s("stage", stage)
        .ints("kinds", kinds)
        .ints("sizes", sizes)
        .bytes("data", &data)
        .bytes("rec", &rebuilt)
}

fn make_trace(pre: &[u8], data: &[u8], codes: &[Code], config: Config, lim: u16) -> Vec<u8> {
    let refs = AllRefs::with_sixteen(pre, data, lim);
    let tech = Technique::new(config, &refs);
    serialise_trace::write(&trace::trace(codes, &tech))
}

fn use_trace(
    pre: &[u8],
    data: &[u8],
    ser: &[u8],
    config: Config,
    lim: u16,
) -> Result<Vec<Code>, anyhow::Error> {
    let refs = AllRefs::with_sixteen(pre, data, lim);
    let tech = Technique::new(config, &refs);
    Ok(trace::restore(&serialise_trace::read(ser)?, &tech))
}

fn run(line: &str) -> String {
    let c = Case::parse(line);
    let id = c.s("id").to_string();
    let op = c.s("op").to_string();
    let o = catch_unwind(AssertUnwindSafe(|| side::with(c.n("side", 0), || match op.as_str() {
        "codec" => op_codec(&c),
        "encode" => op_encode(&c),
        "window" => op_window(&c),
        "trace" => op_trace(&c),
        "better" => op_better(&c),
        "cands" => op_cands(&c),
        "hash" => op_hash(&c),
        "tfw" => op_tfw(&c),
        "tfr" => op_tfr(&c),
        "gzhdr" => op_gzhdr(&c),
        "bits" => op_bits(&c),
        "bitio" => op_bitio(&c),
        "filter" => op_filter(&c),
        "e2e" => op_e2e(&c),
        _ => panic!("unknown op"),
    })));
    match o {
        Ok(_) if side::disturbed() => {
            Obj::new().s("id", &id).s("op", &op).n("alive", 0).s("why", "other work beside it went wrong").end()
        }
        Ok(o) => o.s("id", &id).s("op", &op).n("alive", 1).end(),
        Err(_) => Obj::new().s("id", &id).s("op", &op).n("alive", 0).s("why", "panic").end(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    let cases = std::io::BufReader::new(fs::File::open(&args[1]).unwrap());
    let mut out = fs::OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let t = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            for line in cases.lines().skip(skip) {
                let mut s = run(&line.unwrap());
                s.push('\n');
                out.write_all(s.as_bytes()).unwrap();
            }
        })
        .unwrap();
    t.join().unwrap();
}
