//! Other work with the library beside a case: in between its steps (side=1: also inside its reads and
//! writes), or all the time in another thread (side=2).
use std::cell::{Cell, RefCell};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::OnceLock;

use librezip::all_refs::AllRefs;
use librezip::verif::{BitVec, BitWriter};
use librezip::{
    compressed_block, decompressed_block, gzip, parse_deflate, serialise_trace, trace, Block, CircularBuffer, Code,
    Config, Guesser, Technique, Trace,
};

/// stored, fixed and dynamic blocks
static MIXED: &[u8] = &[
    202, 72, 205, 201, 201, 7, 161, 81, 0, 0, 10, 0, 245, 255, 115, 116, 111, 114, 101, 100, 32, 0, 1, 2,
    228, 253, 97, 255, 20, 207, 238, 130, 127, 190, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189,
    94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215,
    235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 242, 174, 215, 235, 245, 122,
    189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175,
    215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245,
    122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94,
    175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235,
    245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 202, 235, 245, 122, 189, 94, 175, 215, 235,
    245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189,
    94, 175, 215, 235, 245, 122, 189, 94, 175, 215, 235, 245, 122, 189, 94, 147, 235, 53, 175, 215, 235, 245, 122, 189,
    94, 175, 215, 235, 245, 234, 215, 235, 245, 122, 189, 94, 175, 215, 235, 181, 85, 251, 175, 253, 237, 30, 126, 251,
    249, 236, 110, 179, 231, 243, 95, 151, 247, 120, 251, 63, 95, 127, 243, 95, 255, 175, 198, 241, 244, 199, 175, 127,
    242, 215, 15, 255, 15, 0, 0, 55, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 200, 9, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 192, 3, 8,
    15, 190, 143, 167, 247, 239, 249, 222, 191, 175, 239, 247, 251, 61, 143, 239, 231, 251, 253, 238, 254, 173, 94, 223,
    75, 237, 255, 244, 159, 55, 0,
];
/// two dynamic blocks of text
static TEXT: &[u8] = &[
    42, 201, 72, 85, 40, 44, 205, 76, 206, 86, 72, 42, 202, 47, 207, 83, 72, 203, 175, 80, 200, 42, 205, 45,
    40, 86, 200, 47, 75, 45, 82, 40, 1, 74, 231, 36, 86, 85, 42, 164, 228, 167, 235, 128, 121, 96, 197, 64,
    25, 236, 10, 51, 83, 139, 75, 64, 106, 173, 17, 106, 233, 99, 48, 0, 0, 0, 255, 255, 27, 204, 6, 39,
    38, 37, 167, 164, 166, 165, 103, 100, 102, 101, 231, 228, 230, 229, 23, 20, 22, 21, 151, 148, 150, 149, 87, 84,
    86, 225, 150, 1, 0,
];

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static TURN: Cell<usize> = const { Cell::new(0) };
    static STEPS: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// What came of the first steps when nothing else went on.
static ALONE: OnceLock<Vec<u64>> = OnceLock::new();
/// Something else has come of them since.
static DISTURBED: AtomicBool = AtomicBool::new(false);

pub fn disturbed() -> bool {
    DISTURBED.swap(false, Ordering::Relaxed)
}

/// The steps over and over, each compared with what it came to alone.
fn watched<'a>(tech: &'a Technique<'a, 'a, 'a>) -> impl FnMut() + 'a {
    let alone = ALONE.get().expect("set before");
    let mut step = steps(tech);
    let mut at = 0;
    move || {
        if step() != alone[at] {
            DISTURBED.store(true, Ordering::Relaxed);
        }
        at += 1;
        if at == alone.len() {
            at = 0;
            step = steps(tech);
        }
    }
}

fn learn() {
    ALONE.get_or_init(|| {
        let refs = AllRefs::with_sixteen(&TEXT[..9], &TEXT[9..], 4);
        let tech = Technique::new(Config::gzip(1), &refs);
        let mut step = steps(&tech);
        (0..300).map(|_| step()).collect()
    });
}

/// One step of the other work, if this case has it.
pub fn beside() {
    if ON.replace(false) {
        STEPS.with(|s| {
            if let Some(f) = s.borrow_mut().as_mut() {
                f()
            }
        });
        ON.set(true);
    }
}

/// As beside, in a call that is made often.
pub fn beside_often() {
    TURN.set(TURN.get() + 1);
    if TURN.get() % 5 == 0 {
        beside();
    }
}

/// Run a case with the other work it asks for.
pub fn with<T>(side: i64, f: impl FnOnce() -> T) -> T {
    if side != 0 {
        learn();
    }
    match side {
        1 => {
            STEPS.with(|s| {
                // kept for as long as the process lives
                s.borrow_mut().get_or_insert_with(|| {
                    let refs = Box::leak(Box::new(AllRefs::with_sixteen(&TEXT[..9], &TEXT[9..], 4)));
                    let tech = Box::leak(Box::new(Technique::new(Config::gzip(1), refs)));
                    Box::new(watched(tech))
                });
            });
            ON.set(true);
            let r = catch_unwind(AssertUnwindSafe(f));
            ON.set(false);
            r.unwrap_or_else(|e| std::panic::resume_unwind(e))
        }
        2 => {
            let (stop, done) = (AtomicBool::new(false), AtomicUsize::new(0));
            std::thread::scope(|s| {
                let (stop, done) = (&stop, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let refs = AllRefs::with_sixteen(&TEXT[..9], &TEXT[9..], 4);
                        let tech = Technique::new(Config::gzip(1), &refs);
                        let mut step = watched(&tech);
                        while !stop.load(Ordering::Relaxed) {
                            step();
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                    })
                    .unwrap();
                while done.load(Ordering::Relaxed) < 3 {
                    std::thread::yield_now();
                }
                let r = catch_unwind(AssertUnwindSafe(f));
                stop.store(true, Ordering::Relaxed);
                r.unwrap_or_else(|e| std::panic::resume_unwind(e))
            })
        }
        _ => f(),
    }
}

/// Work with every part of the library; each step returns a number that tells what came of it.
fn steps<'a>(tech: &'a Technique<'a, 'a, 'a>) -> impl FnMut() -> u64 + 'a {
    let mut turn = 0usize;
    let mut iter: Option<Box<dyn Iterator<Item = Result<Block, anyhow::Error>>>> = None;
    let mut other = parse_deflate(TEXT);
    let mut dict = CircularBuffer::new();
    let mut coder = BitWriter::new(Sum(0));
    let mut scanner = tech.scanner();
    let mut bits = BitVec::new();
    let mut hashed = librezip::filter::FilterWrite::new(std::io::sink());
    move || {
        let mut sum = Sum(0);
        let r = catch_unwind(AssertUnwindSafe(|| {
            turn += 1;
            let it = iter.get_or_insert_with(|| match turn % 3 {
                0 => Box::new(parse_deflate(&TEXT[..TEXT.len() - turn % 7])),
                _ => Box::new(parse_deflate(MIXED)),
            });
            match it.next() {
                Some(Ok(b)) => {
                    sum.block(&b);
                    let st = decompressed_block(&mut sum, &mut dict, &b).is_ok();
                    sum.add(st as u64);
                    let mut part = BitWriter::new(&mut sum);
                    let _ = part.write_bit(turn % 2 == 0);
                    let _ = compressed_block(&mut part, &b);
                    let _ = part.align();
                    let _ = coder.write_bit(false);
                    let _ = compressed_block(&mut coder, &b);
                }
                end => {
                    sum.add(end.is_some() as u64);
                    iter = None;
                }
            }
            match turn % 4 {
                0 => match other.next() {
                    Some(b) => sum.block(&b.unwrap()),
                    None => {
                        other = parse_deflate(TEXT);
                        sum.write_all(&dict.vec()).unwrap();
                        dict = CircularBuffer::with_capacity(300);
                        coder.align().unwrap();
                        let was = std::mem::replace(&mut coder, BitWriter::new(Sum(0)));
                        sum.add(was.into_inner().0);
                    }
                },
                1 => {
                    if !scanner.more_data() {
                        scanner = tech.scanner();
                    }
                    let codes = scanner.codes();
                    codes.iter().for_each(|c| sum.code(c));
                    scanner.feedback(codes[0]);
                }
                2 => {
                    let mut header = &b"\x1f\x8b\x08\x1c\0\0\0\0\0\x03\x02\0xxname\0comment\0rest"[..];
                    sum.add(gzip::discard_header(&mut header).unwrap().len() as u64);
                    bits.push(turn % 8 < 4);
                    bits.push(true);
                    sum.add(bits.pop().unwrap() as u64);
                    sum.add(bits.iter().filter(|b| *b).count() as u64);
                    sum.add(hashed.write(&TEXT[..turn % 200]).unwrap() as u64);
                    let mut r = librezip::filter::FilterRead::new(TEXT);
                    sum.add(r.read(&mut [0; 20]).unwrap() as u64);
                    sum.write_all(&r.hash()).unwrap();
                }
                _ => {
                    let t = [Trace::Correct, Trace::Correct, Trace::ActuallyLiteral, Trace::Correct];
                    sum.add((serialise_trace::read(&serialise_trace::write(&t)[..]).unwrap() == t) as u64);
                    if turn % 32 == 3 {
                        let data = &TEXT[..20 + turn % 9];
                        let lits: Vec<Code> = data.iter().map(|&b| Code::Literal(b)).collect();
                        let refs = AllRefs::with_sixteen(&[], data, 4);
                        let t = Technique::new(Config::gzip((turn / 32 % 9 + 1) as u8), &refs);
                        sum.add((trace::restore(&trace::trace(&lits, &t), &t) == lits) as u64);
                    }
                }
            }
        }));
        sum.0 ^ r.is_err() as u64
    }
}

/// All that is written to it, as one number.
struct Sum(u64);

impl Sum {
    fn add(&mut self, n: u64) {
        self.0 = (self.0 ^ n).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(7).wrapping_add(1);
    }
    fn code(&mut self, c: &Code) {
        match c {
            Code::Literal(b) => self.add(u64::from(*b)),
            Code::Reference(r) => self.add(u64::from(r.dist) << 32 | u64::from(r.run()) << 16),
        }
    }
    fn block(&mut self, b: &Block) {
        match b {
            Block::Uncompressed(d) => d.iter().for_each(|b| self.add(u64::from(*b))),
            Block::FixedHuffman(codes) => codes.iter().for_each(|c| self.code(c)),
            Block::DynamicHuffman { trees, codes } => {
                self.add(trees.len() as u64);
                trees.iter().for_each(|b| self.add(u64::from(b)));
                codes.iter().for_each(|c| self.code(c));
            }
        }
    }
}

impl Write for Sum {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        buf.iter().for_each(|b| self.add(u64::from(*b)));
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
