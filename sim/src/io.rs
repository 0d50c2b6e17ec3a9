//! Simulated source, sink and store.

use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

use crate::state::{self, ev_num, fault, Fault};
use crate::tape::{Rng, Tape};

/// Payload of injected errors, so that they can be told from any other.
#[derive(Debug)]
pub struct Injected(pub u64);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected failure #{}", self.0)
    }
}
impl std::error::Error for Injected {}

/// How an injected error is built.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ErrShape {
    Custom(ErrorKind),
    Simple(ErrorKind),
    Os(i32),
    /// An error which wraps another of another kind.
    Nested(ErrorKind, ErrorKind),
    /// A text of that many characters.
    Text(ErrorKind, usize),
    /// What another read came to.
    Xml(ErrorKind),
}

pub const ERR_SHAPES: &[ErrShape] = &[
    ErrShape::Custom(ErrorKind::Other),
    ErrShape::Custom(ErrorKind::BrokenPipe),
    ErrShape::Custom(ErrorKind::ConnectionReset),
    ErrShape::Custom(ErrorKind::TimedOut),
    ErrShape::Simple(ErrorKind::WouldBlock),
    ErrShape::Simple(ErrorKind::UnexpectedEof),
    ErrShape::Custom(ErrorKind::UnexpectedEof),
    ErrShape::Custom(ErrorKind::PermissionDenied),
    ErrShape::Custom(ErrorKind::InvalidData),
    ErrShape::Simple(ErrorKind::InvalidData),
    ErrShape::Custom(ErrorKind::OutOfMemory),
    ErrShape::Custom(ErrorKind::NotFound),
    ErrShape::Custom(ErrorKind::WriteZero),
    ErrShape::Custom(ErrorKind::InvalidInput),
    ErrShape::Os(5),  // EIO
    ErrShape::Os(11), // EAGAIN
    ErrShape::Os(104), // ECONNRESET
    ErrShape::Custom(ErrorKind::ConnectionAborted),
    ErrShape::Simple(ErrorKind::ConnectionRefused),
    ErrShape::Custom(ErrorKind::NotConnected),
    ErrShape::Simple(ErrorKind::TimedOut),
    ErrShape::Simple(ErrorKind::BrokenPipe),
    ErrShape::Custom(ErrorKind::AddrInUse),
    ErrShape::Simple(ErrorKind::AddrNotAvailable),
    ErrShape::Custom(ErrorKind::AlreadyExists),
    ErrShape::Custom(ErrorKind::Unsupported),
    ErrShape::Custom(ErrorKind::WouldBlock),
    ErrShape::Simple(ErrorKind::Other),
    ErrShape::Os(6),   // ENXIO
    ErrShape::Os(9),   // EBADF
    ErrShape::Os(12),  // ENOMEM
    ErrShape::Os(21),  // EISDIR
    ErrShape::Os(28),  // ENOSPC
    ErrShape::Os(32),  // EPIPE
    ErrShape::Os(110), // ETIMEDOUT
    ErrShape::Os(116), // ESTALE
    ErrShape::Os(122), // EDQUOT
    ErrShape::Nested(ErrorKind::Other, ErrorKind::Interrupted),
    ErrShape::Nested(ErrorKind::InvalidData, ErrorKind::UnexpectedEof),
    ErrShape::Nested(ErrorKind::ConnectionReset, ErrorKind::WouldBlock),
    ErrShape::Text(ErrorKind::Other, 0),
    ErrShape::Text(ErrorKind::InvalidData, 40),
    ErrShape::Text(ErrorKind::ConnectionAborted, 700),
    ErrShape::Text(ErrorKind::UnexpectedEof, 9_000),
    ErrShape::Xml(ErrorKind::InvalidData),
    ErrShape::Xml(ErrorKind::Other),
];

/// How often in a row a call is interrupted.
fn eintr_times(t: &mut Tape) -> u32 {
    if t.chance(1, 40) {
        if t.rare(60) {
            *t.pick(&[1_100, 10_100, 70_000])
        } else {
            *t.pick(&[8, 40, 200])
        }
    } else {
        1 + t.small(3) as u32
    }
}

impl ErrShape {
    pub fn build(self, nonce: u64) -> io::Error {
        match self {
            ErrShape::Custom(k) => io::Error::new(k, Injected(nonce)),
            ErrShape::Simple(k) => k.into(),
            ErrShape::Os(c) => io::Error::from_raw_os_error(c),
            ErrShape::Text(k, n) => {
                let s = format!("[{}] {{}} <caf\u{e9}>\n'&lt;' \u{1F600} end of stream; ", nonce);
                io::Error::new(k, s.chars().cycle().take(n).collect::<String>())
            }
            ErrShape::Xml(k) => io::Error::new(k, static_xml::de::from_str::<u32>("<r>\n<!-- -->x</r>").unwrap_err()),
            ErrShape::Nested(k, inner) => io::Error::new(k, io::Error::new(inner, Injected(nonce))),
        }
    }
    pub fn kind(self) -> ErrorKind {
        self.build(0).kind()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunking {
    Whole,
    Fixed(usize),
    Random { seed: u64, max: usize },
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Terminal {
    Eof,
    Error { shape: ErrShape, nonce: u64 },
    /// The source's own code panics.
    Panic,
}

#[derive(Clone, Debug)]
pub struct SourcePlan {
    pub chunking: Chunking,
    /// Offsets (sorted) before which the source reports `Interrupted`, with how many times.
    pub eintr: Vec<(usize, u32)>,
    /// Offset at which the terminal condition strikes.
    pub end: usize,
    pub terminal: Terminal,
    /// After the terminal condition was reported, later reads deliver the rest of the data.
    pub resume: bool,
    /// Latency per chunk; 0 = none.
    pub latency: u64,
    pub cut_is_fault: bool,
}

impl SourcePlan {
    pub fn plain(len: usize) -> Self {
        SourcePlan {
            chunking: Chunking::Whole,
            eintr: Vec::new(),
            end: len,
            terminal: Terminal::Eof,
            resume: false,
            latency: 0,
            cut_is_fault: false,
        }
    }

    /// Draws a delivery (chunking, interruptions, latency) without a terminal fault.
    pub fn draw_delivery(t: &mut Tape, len: usize) -> Self {
        let mut p = Self::plain(len);
        p.chunking = match t.weighted(&[2, 2, 3, 2]) {
            0 => Chunking::Whole,
            1 => Chunking::Fixed(*t.pick(&[1, 2, 3, 7, 16, 64])),
            2 => Chunking::Random { seed: t.seed(), max: *t.pick(&[4, 16, 40]) },
            // Beyond the buffers around.
            _ if len > 2000 => Chunking::Random { seed: t.seed(), max: *t.pick(&[20_000, 5_000, 200]) },
            _ => Chunking::Random { seed: t.seed(), max: 200 },
        };
        let n = t.small(5);
        for _ in 0..n {
            let off = t.below(len + 1);
            p.eintr.push((off, eintr_times(t)));
        }
        p.eintr.sort();
        p.latency = *t.pick(&[0, 1_000, 50_000, 10_000_000]);
        p
    }

    pub fn draw_chunk_only(t: &mut Tape, len: usize) -> Self {
        let mut p = Self::plain(len);
        p.chunking = match t.weighted(&[2, 2]) {
            0 => Chunking::Whole,
            _ => Chunking::Random { seed: t.seed(), max: 24 },
        };
        p
    }
}

#[derive(Default, Debug, Clone)]
pub struct SourceStats {
    pub reads: u64,
    pub delivered: usize,
    pub interrupts: u64,
    pub ended: bool,
    pub failed: bool,
    pub reads_after_end: u64,
    pub reads_after_fail: u64,
    /// Where the chunks handed out end.
    pub chunk_ends: Vec<usize>,
    /// The lowest stack address a read was called at.
    pub stack_low: usize,
}

thread_local! {
    /// Bytes delivered by the source last read from.
    pub static DELIVERED: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

pub struct SimSource {
    data: Arc<[u8]>,
    plan: SourcePlan,
    pos: usize,
    chunk_left: usize,
    rng: Rng,
    eintr_i: usize,
    eintr_left: u32,
    stats: Rc<RefCell<SourceStats>>,
}

impl SimSource {
    pub fn new(data: &[u8], plan: SourcePlan) -> (Self, Rc<RefCell<SourceStats>>) {
        state::budget(data.len());
        state::untracked(|| {
            DELIVERED.with(|d| d.set(0));
            let stats = Rc::new(RefCell::new(SourceStats::default()));
            let rng = Rng::new(match plan.chunking {
                Chunking::Random { seed, .. } => seed,
                _ => 0,
            });
            let eintr_left = plan.eintr.first().map_or(0, |e| e.1);
            (
                SimSource {
                    data: data.into(),
                    plan,
                    pos: 0,
                    chunk_left: 0,
                    rng,
                    eintr_i: 0,
                    eintr_left,
                    stats: stats.clone(),
                },
                stats,
            )
        })
    }
}

impl Drop for SimSource {
    fn drop(&mut self) {
        state::untracked(|| {
            self.data = Arc::from(&[][..]);
            self.plan.eintr = Vec::new();
        })
    }
}

impl Read for SimSource {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        state::untracked(|| {
            let here = 0u8;
            let here = std::hint::black_box(&here) as *const u8 as usize;
            let mut st = self.stats.borrow_mut();
            st.reads += 1;
            if st.stack_low == 0 || here < st.stack_low {
                st.stack_low = here;
            }
        });
        state::with(|s| {
            s.steps += 1;
            if s.steps > s.step_limit {
                s.step_limit = u64::MAX;
                true
            } else {
                false
            }
        })
        .then(|| panic!("{}", state::STEP_PANIC));
        if buf.is_empty() {
            return Ok(0);
        }
        {
            let mut st = self.stats.borrow_mut();
            if st.failed {
                st.reads_after_fail += 1;
                ev_num("src-read-after-fail", self.pos as u64, 0);
            }
            if st.ended {
                st.reads_after_end += 1;
            }
        }
        // A new chunk: this is where time passes and other tasks may run.
        if self.chunk_left == 0 {
            let lat = if self.plan.latency > 0 {
                let l = self.rng.below(self.plan.latency);
                if l > self.plan.latency / 2 {
                    state::with(|s| s.faults[Fault::Stall as usize] += 1);
                }
                l
            } else {
                0
            };
            state::step(lat);
        }
        // Interruptions due here.
        while self.eintr_i < self.plan.eintr.len() && self.plan.eintr[self.eintr_i].0 <= self.pos {
            if self.plan.eintr[self.eintr_i].0 == self.pos && self.eintr_left > 0 {
                self.eintr_left -= 1;
                self.stats.borrow_mut().interrupts += 1;
                fault(Fault::ReadEintr);
                ev_num("src-eintr", self.pos as u64, 0);
                return Err(if self.eintr_left % 2 == 0 {
                    ErrorKind::Interrupted.into()
                } else {
                    io::Error::from_raw_os_error(4)
                });
            }
            self.eintr_i += 1;
            self.eintr_left = self.plan.eintr.get(self.eintr_i).map_or(0, |e| e.1);
        }
        let already = { let s = self.stats.borrow(); s.failed || s.ended };
        let limit = if already && self.plan.resume { self.data.len() } else { self.plan.end };
        if self.pos >= limit {
            match self.plan.terminal {
                Terminal::Error { shape, nonce } if !(already && self.plan.resume) => {
                    if !self.stats.borrow().failed {
                        fault(Fault::ReadError);
                        if self.plan.resume {
                            fault(Fault::ReadResumed);
                        }
                        ev_num("src-error", self.pos as u64, nonce);
                    }
                    self.stats.borrow_mut().failed = true;
                    return Err(shape.build(nonce));
                }
                Terminal::Panic => {
                    if !already {
                        fault(Fault::SourcePanic);
                        ev_num("src-panic", self.pos as u64, 0);
                    }
                    self.stats.borrow_mut().failed = true;
                    panic!("{}", crate::script::USER_PANIC)
                }
                _ => {
                    if !self.stats.borrow().ended {
                        if self.plan.cut_is_fault {
                            fault(Fault::Truncated);
                            if self.plan.resume {
                                fault(Fault::EofThenMore);
                            }
                        }
                        ev_num("src-eof", self.pos as u64, 0);
                    }
                    self.stats.borrow_mut().ended = true;
                    return Ok(0);
                }
            }
        }
        if self.chunk_left == 0 {
            self.chunk_left = match self.plan.chunking {
                Chunking::Whole => usize::MAX,
                Chunking::Fixed(n) => n,
                Chunking::Random { max, .. } => 1 + self.rng.below(max as u64) as usize,
            };
            if self.chunk_left < usize::MAX {
                state::with(|s| s.faults[Fault::ShortRead as usize] += 1);
                state::untracked(|| self.stats.borrow_mut().chunk_ends.push(self.pos.saturating_add(self.chunk_left)));
                ev_num("src-chunk", self.pos as u64, self.chunk_left as u64);
            }
        }
        let mut n = buf.len().min(self.chunk_left).min(limit - self.pos);
        if let Some(e) = self.plan.eintr.get(self.eintr_i) {
            if e.0 > self.pos {
                n = n.min(e.0 - self.pos);
            }
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        if self.chunk_left != usize::MAX {
            self.chunk_left -= n;
        }
        self.stats.borrow_mut().delivered = self.pos;
        DELIVERED.with(|d| d.set(self.pos));
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SinkFail {
    Error { shape: ErrShape, nonce: u64 },
    Zero,
    /// The sink's own code panics.
    Panic,
}

#[derive(Clone, Debug)]
pub struct SinkPlan {
    /// Most bytes accepted by one write call.
    pub accept: Chunking,
    /// Offsets before which a write reports `Interrupted`.
    pub eintr: Vec<(usize, u32)>,
    /// Once this many bytes were accepted, the next write fails.
    pub fail: Option<(usize, SinkFail)>,
    /// Alternatively: the n-th write call fails.
    pub fail_call: Option<(u64, SinkFail)>,
    /// After failing once the sink accepts bytes again.
    pub recover: bool,
    /// `flush` fails.
    pub flush_fail: Option<(ErrShape, u64)>,
    pub latency: u64,
}

impl SinkPlan {
    pub fn plain() -> Self {
        SinkPlan {
            accept: Chunking::Whole,
            eintr: Vec::new(),
            fail: None,
            fail_call: None,
            recover: false,
            flush_fail: None,
            latency: 0,
        }
    }
    pub fn draw_delivery(t: &mut Tape, approx_len: usize) -> Self {
        let mut p = Self::plain();
        p.accept = match t.weighted(&[2, 3, 3]) {
            0 => Chunking::Whole,
            1 => Chunking::Fixed(*t.pick(&[1, 2, 3, 5, 17, 64])),
            _ => Chunking::Random { seed: t.seed(), max: *t.pick(&[3, 12, 50]) },
        };
        let n = t.small(5);
        for _ in 0..n {
            let off = t.below(approx_len + 1);
            p.eintr.push((off, eintr_times(t)));
        }
        p.eintr.sort();
        p.latency = *t.pick(&[0, 1_000, 50_000, 10_000_000]);
        p
    }
}

#[derive(Default, Debug, Clone)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub calls: u64,
    pub failed: bool,
    pub panicked: bool,
    pub fail_msg: String,
    pub calls_after_fail: u64,
    pub bytes_after_fail: usize,
    pub flushes: u64,
    pub flushed_len: usize,
    pub flush_failed: bool,
    pub dropped: bool,
}

/// A sink; clones share state so that the test can look after the library consumed it.
pub struct SimSink {
    plan: SinkPlan,
    rng: Rng,
    eintr_i: usize,
    eintr_left: u32,
    st: Rc<RefCell<SinkState>>,
}

impl SimSink {
    pub fn new(plan: SinkPlan) -> (Self, Rc<RefCell<SinkState>>) {
        state::budget(0);
        let st = Rc::new(RefCell::new(SinkState::default()));
        let rng = Rng::new(match plan.accept {
            Chunking::Random { seed, .. } => seed,
            _ => 0,
        });
        let eintr_left = plan.eintr.first().map_or(0, |e| e.1);
        (SimSink { plan, rng, eintr_i: 0, eintr_left, st: st.clone() }, st)
    }

    fn fail(&mut self, f: SinkFail) -> io::Result<usize> {
        let mut st = self.st.borrow_mut();
        let first = !st.failed;
        st.failed = true;
        match f {
            SinkFail::Error { shape, nonce } => {
                let e = shape.build(nonce);
                if first {
                    fault(Fault::WriteError);
                    if nonce == 28 {
                        fault(Fault::DiskFull);
                    }
                    state::untracked(|| st.fail_msg = e.to_string());
                    ev_num("snk-error", st.bytes.len() as u64, nonce);
                }
                Err(e)
            }
            SinkFail::Panic => {
                if first {
                    fault(Fault::SinkPanic);
                    ev_num("snk-panic", st.bytes.len() as u64, 0);
                }
                st.panicked = true;
                drop(st);
                panic!("{}", crate::script::USER_PANIC)
            }
            SinkFail::Zero => {
                if first {
                    fault(Fault::WriteZero);
                    ev_num("snk-zero", st.bytes.len() as u64, 0);
                }
                Ok(0)
            }
        }
    }
}

impl Write for SimSink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let lat = if self.plan.latency > 0 { self.rng.below(self.plan.latency) } else { 0 };
        state::step(lat);
        let (len, calls, was_failed) = {
            let mut st = self.st.borrow_mut();
            st.calls += 1;
            if st.failed {
                st.calls_after_fail += 1;
                ev_num("snk-write-after-fail", st.bytes.len() as u64, buf.len() as u64);
            }
            (st.bytes.len(), st.calls, st.failed)
        };
        while self.eintr_i < self.plan.eintr.len() && self.plan.eintr[self.eintr_i].0 <= len {
            if self.eintr_left > 0 {
                self.eintr_left -= 1;
                fault(Fault::WriteEintr);
                ev_num("snk-eintr", len as u64, 0);
                return Err(ErrorKind::Interrupted.into());
            }
            self.eintr_i += 1;
            self.eintr_left = self.plan.eintr.get(self.eintr_i).map_or(0, |e| e.1);
        }
        if !(was_failed && self.plan.recover) {
            if let Some((at, f)) = self.plan.fail {
                if len >= at || was_failed {
                    return self.fail(f);
                }
            }
            if let Some((c, f)) = self.plan.fail_call {
                if calls > c || was_failed {
                    return self.fail(f);
                }
            }
        } else if self.st.borrow().calls_after_fail == 1 {
            fault(Fault::SinkRecovers);
        }
        let mut n = match self.plan.accept {
            Chunking::Whole => buf.len(),
            Chunking::Fixed(k) => k.min(buf.len()),
            Chunking::Random { max, .. } => (1 + self.rng.below(max as u64) as usize).min(buf.len()),
        };
        if let Some((at, _)) = self.plan.fail {
            if !was_failed && at > len {
                n = n.min(at - len);
            }
        }
        if n < buf.len() {
            state::with(|s| s.faults[Fault::ShortWrite as usize] += 1);
        }
        ev_num("snk-write", len as u64, n as u64);
        let mut st = self.st.borrow_mut();
        state::untracked(|| st.bytes.extend_from_slice(&buf[..n]));
        if was_failed {
            st.bytes_after_fail += n;
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        state::step(0);
        let mut st = self.st.borrow_mut();
        st.flushes += 1;
        if let Some((shape, nonce)) = self.plan.flush_fail {
            if !st.flush_failed {
                fault(Fault::FlushError);
            }
            st.flush_failed = true;
            let e = shape.build(nonce);
            state::untracked(|| st.fail_msg = e.to_string());
            return Err(e);
        }
        st.flushed_len = st.bytes.len();
        Ok(())
    }
}

impl Drop for SimSink {
    fn drop(&mut self) {
        self.st.borrow_mut().dropped = true;
    }
}

/// Byte-level damage to stored data.
pub fn damage(t: &mut Tape, data: &mut Vec<u8>, n: usize) {
    for _ in 0..n {
        if data.is_empty() {
            return;
        }
        match t.weighted(&[3, 3, 2, 2, 1]) {
            0 => {
                let i = t.below(data.len());
                let bit = t.below(8);
                data[i] ^= 1 << bit;
                fault(Fault::BitFlip);
                ev_num("damage-bit", i as u64, bit as u64);
            }
            1 => {
                let i = t.below(data.len());
                const PAL: &[u8] = b"<>/=\"'&;! ?-[]:ax1\n\t\0\xff\xc3";
                data[i] = *t.pick(PAL);
                fault(Fault::ByteGarbage);
                ev_num("damage-byte", i as u64, data[i] as u64);
            }
            2 => {
                let i = t.below(data.len());
                let l = (1 + t.below(24)).min(data.len() - i);
                data.drain(i..i + l);
                fault(Fault::BlockLost);
                ev_num("damage-lost", i as u64, l as u64);
            }
            3 => {
                let i = t.below(data.len());
                let l = (1 + t.below(24)).min(data.len() - i);
                let b: Vec<u8> = data[i..i + l].to_vec();
                data.splice(i..i, b);
                fault(Fault::BlockDup);
                ev_num("damage-dup", i as u64, l as u64);
            }
            _ => {
                let l = 1 + t.below(16);
                if data.len() >= 2 * l {
                    let i = t.below(data.len() - 2 * l + 1);
                    let j = i + l;
                    for k in 0..l {
                        data.swap(i + k, j + k);
                    }
                    fault(Fault::BlockSwap);
                    ev_num("damage-swap", i as u64, l as u64);
                }
            }
        }
    }
}
