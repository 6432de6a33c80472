//! The simulated stream a Dockerfile is loaded from: how bytes are delivered,
//! what goes wrong while they are, and what the bytes looked like after the
//! simulated storage got hold of them.

use crate::rng::{mix, Rng};
use crate::rt;
use serde::{Deserialize, Serialize};
use std::io::{self, ErrorKind, Read};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fault {
    /// EINTR, n times in a row: must be retried, never surfaces
    Interrupt { n: u32 },
    /// the read takes this many simulated nanoseconds
    Stall { ns: u64 },
    /// the wall clock jumps
    ClockJump { secs: i64 },
    /// a hard error
    Fail { err: ErrSpec },
    /// the reader itself panics
    Panic {},
    /// (sinks) no room left: a write accepts nothing
    Full {},
    /// end of the stream; what a further read would return is not part of it
    End {},
    /// the reader (or sink) itself calls the library before it goes on
    Call { what: u32 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ErrSpec {
    pub kind: String,
    /// os: from errno; simple: only a kind; custom: carries a payload
    pub style: String,
    pub code: i32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Stream {
    /// sizes of successive reads, repeated cyclically; empty: as much as fits
    pub chunks: Vec<u32>,
    /// (offset, what happens when the reader gets there); past the end: at EOF
    pub faults: Vec<(usize, Fault)>,
    /// simulated nanoseconds every read takes
    pub latency: u64,
    /// (readers) brings its own way of reading everything, as files and
    /// in-memory readers do; reads in pieces of this size then (0: does not)
    #[serde(default)]
    pub own: u32,
}

#[derive(Debug)]
pub struct Payload(pub i32);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "simulated device failure #{}", self.0)
    }
}
impl std::error::Error for Payload {}

const KINDS: &[(&str, ErrorKind)] = &[
    ("NotFound", ErrorKind::NotFound),
    ("PermissionDenied", ErrorKind::PermissionDenied),
    ("ConnectionReset", ErrorKind::ConnectionReset),
    ("ConnectionAborted", ErrorKind::ConnectionAborted),
    ("NotConnected", ErrorKind::NotConnected),
    ("BrokenPipe", ErrorKind::BrokenPipe),
    ("WouldBlock", ErrorKind::WouldBlock),
    ("InvalidInput", ErrorKind::InvalidInput),
    ("InvalidData", ErrorKind::InvalidData),
    ("TimedOut", ErrorKind::TimedOut),
    ("WriteZero", ErrorKind::WriteZero),
    ("UnexpectedEof", ErrorKind::UnexpectedEof),
    ("OutOfMemory", ErrorKind::OutOfMemory),
    ("Unsupported", ErrorKind::Unsupported),
    ("Other", ErrorKind::Other),
];

const ERRNOS: &[i32] = &[
    libc::EIO, libc::EAGAIN, libc::ENOSPC, libc::EACCES, libc::ETIMEDOUT, libc::ECONNRESET,
    libc::EPIPE, libc::EISDIR, libc::ESTALE, libc::EBADF, libc::ENOMEM, libc::ENODEV, libc::EMFILE,
];

impl ErrSpec {
    pub fn gen(r: &mut Rng) -> ErrSpec {
        match r.below(3) {
            0 => ErrSpec { kind: String::new(), style: "os".into(), code: *r.pick(ERRNOS) },
            1 => ErrSpec { kind: r.pick(KINDS).0.into(), style: "simple".into(), code: 0 },
            _ => ErrSpec { kind: r.pick(KINDS).0.into(), style: "custom".into(), code: r.range(1, 1000) as i32 },
        }
    }
    fn kind(&self) -> ErrorKind {
        KINDS.iter().find(|k| k.0 == self.kind).map(|k| k.1).unwrap_or(ErrorKind::Other)
    }
    pub fn make(&self) -> io::Error {
        match self.style.as_str() {
            "os" => io::Error::from_raw_os_error(self.code),
            "simple" => io::Error::from(self.kind()),
            _ => io::Error::new(self.kind(), Payload(self.code)),
        }
    }
    /// None if `e` is this very error, else why not
    pub fn mismatch(&self, e: &io::Error) -> Option<String> {
        let want = self.make();
        if want.kind() != e.kind() {
            return Some(format!("kind {:?} instead of {:?}", e.kind(), want.kind()));
        }
        if want.raw_os_error() != e.raw_os_error() {
            return Some(format!("errno {:?} instead of {:?}", e.raw_os_error(), want.raw_os_error()));
        }
        if want.to_string() != e.to_string() {
            return Some(format!("message {:?} instead of {:?}", e.to_string(), want.to_string()));
        }
        if self.style == "custom" {
            let p = e.get_ref().and_then(|p| p.downcast_ref::<Payload>());
            if p.map(|p| p.0) != Some(self.code) {
                return Some("the reader's payload is gone".into());
            }
        }
        None
    }
}

pub struct SimReader {
    data: std::rc::Rc<Vec<u8>>,
    plan: Stream,
    pos: usize,
    fault: usize,
    intr_left: u32,
    chunk: usize,
    eofs: u64,
    pub reads: u64,
    /// hard errors handed out
    pub failed: Vec<ErrSpec>,
    pub at_end: bool,
    /// calls the reader made, and the answers it got
    pub nested: Vec<(u32, String)>,
}

impl SimReader {
    pub fn new(data: std::rc::Rc<Vec<u8>>, plan: &Stream) -> SimReader {
        let mut plan = plan.clone();
        let n = data.len();
        for f in plan.faults.iter_mut() {
            f.0 = f.0.min(n);
        }
        plan.faults.sort_by_key(|f| f.0);
        SimReader {
            data,
            plan,
            pos: 0,
            fault: 0,
            intr_left: 0,
            chunk: 0,
            eofs: 0,
            reads: 0,
            failed: vec![],
            at_end: false,
            nested: vec![],
        }
    }

    fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.plan.latency > 0 {
            rt::sleep(self.plan.latency);
        }
        loop {
            if self.intr_left > 0 {
                self.intr_left -= 1;
                rt::stat("fault.interrupt", 1);
                return Err(if self.intr_left % 2 == 0 {
                    io::Error::from(ErrorKind::Interrupted)
                } else {
                    io::Error::from_raw_os_error(libc::EINTR)
                });
            }
            if self.fault < self.plan.faults.len() && self.plan.faults[self.fault].0 <= self.pos {
                let f = self.plan.faults[self.fault].1.clone();
                self.fault += 1;
                match f {
                    Fault::Interrupt { n } => {
                        self.intr_left = n;
                        rt::event(0x11, || format!("reader: {} interrupts", n));
                        continue;
                    }
                    Fault::Stall { ns } => {
                        rt::stat("fault.stall", 1);
                        rt::event(0x12, || format!("reader: stalls {} ns", ns));
                        rt::sleep(ns);
                        continue;
                    }
                    Fault::ClockJump { secs } => {
                        rt::stat("fault.clock-jump", 1);
                        rt::jump_clock(secs);
                        continue;
                    }
                    Fault::Fail { err } => {
                        rt::stat(&format!("fault.read-error.{}", err.style), 1);
                        if self.pos == self.data.len() {
                            rt::stat("fault.read-error-at-eof", 1);
                        } else if self.pos == 0 {
                            rt::stat("fault.read-error-at-start", 1);
                        }
                        let e = err.make();
                        let pos = self.pos;
                        rt::event(mix(0x13 ^ pos as u64), || format!("reader: {:?} at byte {}", e, pos));
                        self.failed.push(err.clone());
                        return Err(err.make());
                    }
                    Fault::Full {} => continue,
                    Fault::Call { what } => {
                        rt::stat("fault.reader-calls-library", 1);
                        let a = crate::checks::nested(what);
                        rt::event(mix(0x15 ^ what as u64), || format!("reader: made call {}", what));
                        self.nested.push((what, a));
                        continue;
                    }
                    Fault::End {} => {
                        rt::stat("fault.end-before-more-data", 1);
                        let pos = self.pos;
                        rt::event(mix(0x14 ^ pos as u64), || format!("reader: end of stream at byte {}", pos));
                        return Ok(0);
                    }
                    Fault::Panic {} => {
                        rt::stat("fault.reader-panic", 1);
                        std::panic::panic_any(rt::InjectedPanic);
                    }
                }
            }
            break;
        }
        let mut n = buf.len().min(self.data.len() - self.pos);
        if !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[self.chunk % self.plan.chunks.len()].max(1) as usize;
            self.chunk += 1;
            if c < n {
                n = c;
                rt::stat("fault.short-read", 1);
            }
        }
        if self.fault < self.plan.faults.len() {
            let limit = self.plan.faults[self.fault].0 - self.pos;
            n = n.min(limit.max(1));
        }
        if n == 0 {
            self.eofs += 1;
            self.at_end = true;
            if self.eofs > 10_000 {
                rt::violation("read-loop", "the reader reported end of file 10000 times and is still being read");
            }
            return Ok(0);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if self.pos < self.data.len() && (self.data[self.pos] & 0xC0) == 0x80 {
            rt::stat("probe.read-ends-inside-a-character", 1);
        }
        Ok(n)
    }
}

impl SimReader {
    /// what is left, in the reader's own way
    fn rest(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        rt::outside(|| {
            let mut piece = vec![0; self.plan.own as usize];
            let old = buf.len();
            loop {
                match self.step(&mut piece) {
                    Ok(0) => return Ok(buf.len() - old),
                    Ok(n) => buf.extend_from_slice(&piece[..n]),
                    Err(e) if e.kind() == ErrorKind::Interrupted => {}
                    Err(e) => return Err(e),
                }
            }
        })
    }
}

/// the same reader without methods of its own
struct Plain<'a>(&'a mut SimReader);
impl Read for Plain<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        rt::outside(|| self.step(buf))
    }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> {
        if self.plan.own == 0 {
            return Plain(self).read_to_end(buf);
        }
        rt::stat("probe.own-read-to-end", 1);
        self.rest(buf)
    }
    fn read_to_string(&mut self, buf: &mut String) -> io::Result<usize> {
        if self.plan.own == 0 {
            return Plain(self).read_to_string(buf);
        }
        rt::stat("probe.own-read-to-string", 1);
        let mut all = vec![];
        let r = self.rest(&mut all);
        match std::str::from_utf8(&all) {
            Ok(s) => {
                buf.push_str(s);
                r
            }
            Err(_) => r.and_then(|_| Err(io::Error::new(ErrorKind::InvalidData, "stream did not contain valid UTF-8"))),
        }
    }
}

/// What a value is written to: a file, pipe or socket that takes what it likes.
pub struct SimSink {
    plan: Stream,
    fault: usize,
    intr_left: u32,
    chunk: usize,
    pub written: Vec<u8>,
    /// the hard error handed out (None inside: accepted nothing)
    pub failed: Option<Option<ErrSpec>>,
    pub calls_after_failure: u64,
    /// calls the sink made, and the answers it got
    pub nested: Vec<(u32, String)>,
}

impl SimSink {
    pub fn new(plan: &Stream) -> SimSink {
        let mut plan = plan.clone();
        plan.faults.sort_by_key(|f| f.0);
        SimSink { plan, fault: 0, intr_left: 0, chunk: 0, written: vec![], failed: None, calls_after_failure: 0, nested: vec![] }
    }

    fn step(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            self.calls_after_failure += 1;
        }
        if self.plan.latency > 0 {
            rt::sleep(self.plan.latency);
        }
        let pos = self.written.len();
        loop {
            if self.intr_left > 0 {
                self.intr_left -= 1;
                rt::stat("fault.interrupt", 1);
                return Err(io::Error::from(ErrorKind::Interrupted));
            }
            if self.fault < self.plan.faults.len() && self.plan.faults[self.fault].0 <= pos {
                let f = self.plan.faults[self.fault].1.clone();
                self.fault += 1;
                match f {
                    Fault::Interrupt { n } => self.intr_left = n,
                    Fault::Stall { ns } => {
                        rt::stat("fault.stall", 1);
                        rt::sleep(ns);
                    }
                    Fault::ClockJump { secs } => {
                        rt::stat("fault.clock-jump", 1);
                        rt::jump_clock(secs);
                    }
                    Fault::Fail { err } => {
                        rt::stat(&format!("fault.write-error.{}", err.style), 1);
                        rt::event(mix(0x23 ^ pos as u64), || format!("sink: {:?} at byte {}", err, pos));
                        let e = err.make();
                        self.failed = Some(Some(err));
                        return Err(e);
                    }
                    Fault::Full {} => {
                        rt::stat("fault.sink-full", 1);
                        rt::event(mix(0x24 ^ pos as u64), || format!("sink: full at byte {}", pos));
                        self.failed = Some(None);
                        return Ok(0);
                    }
                    Fault::Call { what } => {
                        rt::stat("fault.sink-calls-library", 1);
                        let a = crate::checks::nested(what);
                        self.nested.push((what, a));
                    }
                    Fault::Panic {} => {
                        rt::stat("fault.sink-panic", 1);
                        self.failed = Some(None);
                        std::panic::panic_any(rt::InjectedPanic);
                    }
                    Fault::End {} => {}
                }
                continue;
            }
            break;
        }
        let mut n = buf.len();
        if !self.plan.chunks.is_empty() {
            let c = self.plan.chunks[self.chunk % self.plan.chunks.len()].max(1) as usize;
            self.chunk += 1;
            if c < n {
                n = c;
                rt::stat("fault.short-write", 1);
            }
        }
        if self.fault < self.plan.faults.len() {
            n = n.min((self.plan.faults[self.fault].0 - pos).max(1));
        }
        self.written.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

impl io::Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        rt::outside(|| self.step(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// a fixed buffer: takes whole strings as long as there is room
pub struct SimBuffer {
    pub room: usize,
    pub written: String,
    pub failed: bool,
}

impl std::fmt::Write for SimBuffer {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        rt::outside(|| {
            if self.failed || self.written.len() + s.len() > self.room {
                if !self.failed {
                    rt::stat("fault.buffer-full", 1);
                }
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.written.push_str(s);
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- generators

pub fn gen_chunks(r: &mut Rng, len: usize) -> Vec<u32> {
    let big = len > 200_000;
    match r.below(8) {
        0 | 1 => vec![],
        2 if !big => vec![1],
        3 if !big => vec![r.range(1, 3) as u32, r.range(1, 9) as u32],
        4 => vec![*r.pick(&[512u32, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65536])],
        5 => (0..r.range(1, 12)).map(|_| 1 + (r.next() % 5000) as u32).collect(),
        6 if !big => (0..r.range(2, 20)).map(|_| 1 + (r.next() % 40) as u32).collect(),
        _ => (0..r.range(1, 6)).map(|_| 1 + (r.next() % 70_000) as u32).collect(),
    }
}

/// interesting places: buffer boundaries, inside characters, ends
pub fn gen_offset(r: &mut Rng, data: &[u8]) -> usize {
    let n = data.len();
    match r.below(7) {
        0 => 0,
        1 => n,
        2 => n.saturating_sub(r.range(1, 3)),
        3 => {
            let b = *r.pick(&[4096usize, 8192, 16384, 32, 65536]);
            (b * r.range(1, 4) + r.below(3)).saturating_sub(1).min(n)
        }
        4 => {
            // after a line ending
            let start = if n == 0 { 0 } else { r.below(n) };
            data[start..].iter().position(|b| *b == b'\n').map(|p| start + p + 1).unwrap_or(n)
        }
        5 => {
            // inside a multi-byte character, if there is one
            let start = if n == 0 { 0 } else { r.below(n) };
            data[start..].iter().position(|b| b & 0xC0 == 0x80).map(|p| start + p).unwrap_or(n)
        }
        _ => r.below(n + 1),
    }
}

/// delivery conditions that must not matter
pub fn gen_benign(r: &mut Rng, data: &[u8]) -> Stream {
    let mut s = Stream { chunks: gen_chunks(r, data.len()), faults: vec![], latency: 0, own: 0 };
    if r.pct(25) {
        s.latency = r.range(1, 2_000_000) as u64;
    }
    if r.pct(12) {
        s.own = *r.pick(&[1, 7, 64, 4096, 65536]);
        if data.len() > 100_000 {
            s.own = 65536;
        }
    }
    if r.pct(8) {
        for _ in 0..r.range(1, 3) {
            s.faults.push((gen_offset(r, data), Fault::Call { what: r.below(4000) as u32 }));
        }
    }
    if r.pct(65) {
        for _ in 0..r.range(1, 8) {
            let at = gen_offset(r, data);
            let f = match r.below(8) {
                0..=4 => Fault::Interrupt { n: *r.pick(&[1u32, 1, 1, 2, 3, 17, 200]) },
                5 | 6 => Fault::Stall { ns: r.next() % 3_600_000_000_000 },
                _ => Fault::ClockJump { secs: r.range(0, 2_000_000) as i64 - 1_000_000 },
            };
            s.faults.push((at, f));
        }
    }
    s
}

// ---------------------------------------------------------------- damage

/// What happened to the bytes before they reached the reader.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    Truncate { at: usize },
    FlipBit { at: usize, bit: u8 },
    Byte { at: usize, b: u8 },
    Zero { at: usize, n: usize },
    Lose { at: usize, n: usize },
    Duplicate { at: usize, n: usize, times: usize },
    Swap { a: usize, b: usize, n: usize },
    Insert { at: usize, text: String, times: usize },
}

const TOKENS: &[&str] = &[
    "\\\n", "\\\r\n", "\\", "\"", "'", "`", "[", "]", ",", "=", " ", "\t", "\n", "\r", "\r\n", "#",
    "# c\n", "FROM ", "RUN ", "LABEL ", "ENV ", "COPY ", "ARG ", "CMD [", "--a=b ", "$x", "${", "@",
    "@sha256:", ":", "/", "\u{0}", "\u{1f}", "é", "🚀", "\u{feff}", "\\q", "\\u12", "\\U0001F680",
    "\\x41", "as", " AS x", "\\\"", "''", "\"\"", "a=b ", "\\ \n", "x", "\u{2028}", "\\0", "\\777",
];

pub fn gen_damage(r: &mut Rng, len: usize, deep: bool) -> Damage {
    let at = r.below(len + 1);
    match r.below(12) {
        0 => Damage::Truncate { at },
        1 => Damage::FlipBit { at, bit: r.below(8) as u8 },
        2 => Damage::Byte { at, b: *r.pick(&[0u8, 0x1f, 0x80, 0xff, 0xc3, 0xe2, b'\\', b'"', b'\n', b'\r', b' ']) },
        3 => Damage::Zero { at, n: r.range(1, 64) },
        4 => Damage::Lose { at, n: 1 + r.below(len / 2 + 1) },
        5 => Damage::Duplicate { at, n: 1 + r.below(len.min(300) + 1), times: if deep { 1 << r.below(11) } else { r.range(1, 3) } },
        6 => Damage::Swap { a: at, b: r.below(len + 1), n: r.range(1, 64) },
        7 if deep => Damage::Insert { at, text: r.pick(TOKENS).to_string(), times: 1 << r.below(15) },
        8 if deep => {
            let t = format!("{}{}", r.pick(TOKENS), r.pick(TOKENS));
            Damage::Insert { at, text: t, times: 1 << r.below(14) }
        }
        _ => Damage::Insert { at, text: r.pick(TOKENS).to_string(), times: r.range(1, 2) },
    }
}

pub fn apply_damage(mut d: Vec<u8>, list: &[Damage]) -> Vec<u8> {
    for x in list {
        let n = d.len();
        match x {
            Damage::Truncate { at } => d.truncate((*at).min(n)),
            Damage::FlipBit { at, bit } => {
                if *at < n {
                    d[*at] ^= 1 << bit
                }
            }
            Damage::Byte { at, b } => {
                if *at < n {
                    d[*at] = *b
                }
            }
            Damage::Zero { at, n: k } => {
                for i in *at..(*at + *k).min(n) {
                    d[i] = 0
                }
            }
            Damage::Lose { at, n: k } => {
                let a = (*at).min(n);
                let b = (a + *k).min(n);
                d.drain(a..b);
            }
            Damage::Duplicate { at, n: k, times } => {
                let a = (*at).min(n);
                let b = (a + *k).min(n);
                let piece: Vec<u8> = d[a..b].to_vec();
                let mut ins = Vec::with_capacity(piece.len() * times);
                for _ in 0..*times {
                    if ins.len() > 400_000 {
                        break;
                    }
                    ins.extend_from_slice(&piece);
                }
                d.splice(b..b, ins);
            }
            Damage::Swap { a, b, n: k } => {
                for i in 0..*k {
                    if a + i < n && b + i < n {
                        d.swap(a + i, b + i)
                    }
                }
            }
            Damage::Insert { at, text, times } => {
                let a = (*at).min(n);
                let ins = text.repeat(*times).into_bytes();
                d.splice(a..a, ins);
            }
        }
    }
    d
}
