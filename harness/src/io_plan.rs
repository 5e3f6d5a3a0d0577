//! Read and Write stand-ins that follow a plan: chunk sizes, interruptions, a fault at a byte position.
use std::io::{self, Read, Write};

#[derive(Clone, Debug)]
pub struct Plan {
    /// most bytes moved per call; 0: no limit
    pub chunk: usize,
    /// every n-th call is interrupted first; 0: never
    pub intr: usize,
    /// fail once this many bytes have passed
    pub fail: Option<usize>,
    /// fail for one call only; otherwise for good
    pub once: bool,
    /// 'o' Other, 'u' UnexpectedEof, 'w' WouldBlock, 'p' BrokenPipe, 't' TimedOut, 'd' InvalidData,
    /// 'i' InvalidInput, 'r' ConnectionReset, 'e' WriteZero, 'm' OutOfMemory, 's' Unsupported,
    /// 'x' the system's EIO, 'f' its ENOSPC, 'z' (writers) Ok(0)
    pub kind: char,
}

impl Plan {
    pub fn none() -> Plan {
        Plan { chunk: 0, intr: 0, fail: None, once: false, kind: 'o' }
    }
    /// "chunk:intr:fail:kind", fail -1 for none; ":1" after it for a fault that passes
    pub fn parse(s: &str) -> Plan {
        let v: Vec<&str> = s.split(':').collect();
        let fail: i64 = v[2].parse().unwrap();
        Plan {
            chunk: v[0].parse().unwrap(),
            intr: v[1].parse().unwrap(),
            fail: if fail < 0 { None } else { Some(fail as usize) },
            once: v.len() > 4 && v[4] == "1",
            kind: v[3].chars().next().unwrap(),
        }
    }
    /// the most bytes the call moves: `chunk`; from 10000000 on, any number up to what is above that
    fn most(&self, call: usize) -> usize {
        match self.chunk {
            0 => usize::MAX,
            n if n > 10_000_000 => 1 + (call.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 33) % (n - 10_000_000),
            n => n,
        }
    }
    /// every `intr`th call; from 1000 on, `intr / 1000` calls in a row, `intr % 1000 - 1` others in between
    fn interrupts(&self, call: usize) -> bool {
        let (row, period) = if self.intr >= 1000 { (self.intr / 1000, self.intr % 1000) } else { (1, self.intr) };
        period > 0 && call % (period - 1 + row) < row
    }
    fn error(&self) -> io::Error {
        match self.kind {
            'x' => return io::Error::from_raw_os_error(5),
            'f' => return io::Error::from_raw_os_error(28),
            _ => {}
        }
        io::Error::new(
            match self.kind {
                'u' => io::ErrorKind::UnexpectedEof,
                'w' => io::ErrorKind::WouldBlock,
                'p' => io::ErrorKind::BrokenPipe,
                't' => io::ErrorKind::TimedOut,
                'd' => io::ErrorKind::InvalidData,
                'i' => io::ErrorKind::InvalidInput,
                'r' => io::ErrorKind::ConnectionReset,
                'e' => io::ErrorKind::WriteZero,
                'm' => io::ErrorKind::OutOfMemory,
                's' => io::ErrorKind::Unsupported,
                _ => io::ErrorKind::Other,
            },
            "planned fault",
        )
    }
}

pub struct PlanReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    plan: Plan,
    calls: usize,
    failed: bool,
}

impl<'a> PlanReader<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        PlanReader { data, pos: 0, plan, calls: 0, failed: false }
    }
}

impl<'a> Read for PlanReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        crate::side::beside_often();
        if self.plan.interrupts(self.calls) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let (Some(f), false) = (self.plan.fail, self.plan.once && self.failed) {
            if self.pos >= f && !buf.is_empty() {
                self.failed = true;
                return Err(self.plan.error());
            }
            end = end.min(f);
        }
        let mut n = buf.len().min(end - self.pos);
        n = n.min(self.plan.most(self.calls));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub struct PlanWriter {
    pub data: Vec<u8>,
    plan: Plan,
    calls: usize,
    failed: bool,
}

impl PlanWriter {
    pub fn new(plan: Plan) -> Self {
        PlanWriter { data: Vec::new(), plan, calls: 0, failed: false }
    }
}

impl Write for PlanWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        crate::side::beside_often();
        if self.plan.interrupts(self.calls) {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len();
        n = n.min(self.plan.most(self.calls));
        if let (Some(f), false) = (self.plan.fail, self.plan.once && self.failed) {
            if self.data.len() >= f && !buf.is_empty() {
                self.failed = true;
                if self.plan.kind == 'z' {
                    return Ok(0);
                }
                return Err(self.plan.error());
            }
            n = n.min(f - self.data.len());
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        // what was never refused has arrived
        if self.failed && !self.plan.once && self.plan.kind != 'z' {
            return Err(self.plan.error());
        }
        Ok(())
    }
}
