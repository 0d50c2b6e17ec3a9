//! Per-thread simulator state: counters, event log, simulated clock, scheduler handle.

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::Arc;

use crate::sched::Sched;

macro_rules! faults {
    ($($id:ident => $name:literal,)*) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Fault { $($id,)* }
        pub const FAULT_NAMES: &[&str] = &[$($name,)*];
    };
}
faults! {
    ShortRead => "short_read",
    ReadEintr => "read_interrupted",
    ReadError => "read_error",
    ReadResumed => "read_error_then_resumes",
    SourcePanic => "source_panics",
    Logger => "logger_listens",
    Truncated => "source_truncated",
    EofThenMore => "eof_then_more_data",
    Stall => "stall",
    BitFlip => "stored_bit_flip",
    ByteGarbage => "stored_byte_garbage",
    BlockLost => "stored_block_lost",
    BlockDup => "stored_block_duplicated",
    BlockSwap => "stored_block_swapped",
    NodeLost => "element_lost",
    NodeDup => "element_duplicated",
    NodeSwap => "element_reordered",
    AttrLost => "attribute_lost",
    AttrDup => "attribute_duplicated",
    AttrSwap => "attribute_reordered",
    TextDamage => "text_damaged",
    ShortWrite => "short_write",
    WriteEintr => "write_interrupted",
    WriteError => "write_error",
    WriteZero => "write_accepts_nothing",
    DiskFull => "disk_full",
    SinkPanic => "sink_panics",
    FlushError => "flush_error",
    SinkRecovers => "sink_recovers_after_error",
    Crash => "crash_torn_store",
    CbError => "callback_error",
    CbPanic => "callback_panic",
    CbSwallow => "callback_swallows_error",
    CbCatch => "callback_catches_panic",
    DerivedChild => "child_read_into_derived_type",
    ChildDropped => "child_dropped_unread",
    ChildPassed => "child_passed_on",
    BuilderAbandoned => "builder_abandoned",
    WriterAbandoned => "writer_abandoned",
    SerError => "serialize_code_error",
    SerPanic => "serialize_code_panic",
    HugeContent => "huge_unknown_content",
    DerivedChildWritten => "derived_value_within_scripted_tree",
    SerSwallow => "serialize_code_ignores_error",
    Unnameable => "undeclared_namespace_used",
    DupAttrCall => "duplicate_attribute_call",
    Preempt => "preemption",
    NestedOp => "nested_operation",
    HashReseed => "hash_keys_reseeded",
}
pub const N_FAULTS: usize = FAULT_NAMES.len();

pub struct Sim {
    pub faults: [u64; N_FAULTS],
    pub probes: BTreeMap<&'static str, u64>,
    pub log_hash: u64,
    pub log_events: u64,
    pub lines: Option<Vec<String>>,
    pub time_ns: u64,
    pub steps: u64,
    pub step_limit: u64,
    /// The limit is not to be extended.
    pub tight: bool,
    pub sched: Option<(Arc<Sched>, usize)>,
}

impl Sim {
    fn new() -> Self {
        Sim {
            faults: [0; N_FAULTS],
            probes: BTreeMap::new(),
            log_hash: 0xcbf2_9ce4_8422_2325,
            log_events: 0,
            lines: None,
            time_ns: 0,
            steps: 0,
            step_limit: u64::MAX,
            tight: false,
            sched: None,
        }
    }
}

thread_local! {
    static SIM: RefCell<Sim> = RefCell::new(Sim::new());
    /// Bytes currently allocated by this thread, as counted while tracking is on.
    pub static ALLOC_BALANCE: Cell<isize> = const { Cell::new(0) };
    /// The most it was.
    pub static ALLOC_PEAK: Cell<isize> = const { Cell::new(0) };
    pub static ALLOC_TRACK: Cell<bool> = const { Cell::new(false) };
    pub static RAND_SEED: Cell<u64> = const { Cell::new(0) };
}

/// Runs `f` with allocation tracking off (simulator bookkeeping).
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let old = ALLOC_TRACK.with(|t| t.replace(false));
    let r = f();
    ALLOC_TRACK.with(|t| t.set(old));
    r
}

pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    untracked(|| SIM.with(|s| f(&mut s.borrow_mut())))
}

pub fn reset(verbose: bool) {
    with(|s| {
        *s = Sim::new();
        if verbose {
            s.lines = Some(Vec::new());
        }
    });
}

pub fn take() -> Sim {
    with(|s| std::mem::replace(s, Sim::new()))
}

/// Merges a finished task's state into this thread's.
pub fn absorb(o: Sim) {
    with(|s| {
        for i in 0..N_FAULTS {
            s.faults[i] += o.faults[i];
        }
        for (k, v) in o.probes {
            *s.probes.entry(k).or_insert(0) += v;
        }
        s.log_hash = crate::tape::mix(s.log_hash, o.log_hash);
        s.log_events += o.log_events;
        s.time_ns = s.time_ns.max(o.time_ns);
        s.steps += o.steps;
        if let (Some(a), Some(b)) = (s.lines.as_mut(), o.lines) {
            a.extend(b);
        }
    });
}

pub fn fault(f: Fault) {
    with(|s| s.faults[f as usize] += 1);
    ev(|| format!("fault {}", FAULT_NAMES[f as usize]));
}

pub fn probe(name: &'static str) {
    with(|s| *s.probes.entry(name).or_insert(0) += 1);
}

pub fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for &x in b {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// Records one event in the run's log. The log never influences the run.
pub fn ev(f: impl FnOnce() -> String) {
    untracked(|| {
        let line = f();
        with(|s| {
            s.log_hash = fnv(fnv(s.log_hash, line.as_bytes()), b"\n");
            s.log_events += 1;
            if let Some(l) = s.lines.as_mut() {
                if l.len() < 4000 {
                    l.push(line);
                }
            }
        })
    });
}

/// Records a numeric event cheaply (I/O calls).
pub fn ev_num(tag: &'static str, a: u64, b: u64) {
    with(|s| {
        s.log_hash = (s.log_hash ^ tag.as_bytes()[0] as u64 ^ a.rotate_left(17) ^ b.rotate_left(41))
            .wrapping_mul(0x100_0000_01b3);
        s.log_events += 1;
        if let Some(l) = s.lines.as_mut() {
            if l.len() < 4000 {
                l.push(format!("{} {} {}", tag, a, b));
            }
        }
    });
}

/// What the library logs is formatted and thrown away; other tasks may run meanwhile.
struct Listener;
impl log::Log for Listener {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        untracked(|| ev(|| format!("log {}", r.args())));
        with(|s| s.faults[Fault::Logger as usize] += 1);
        step(0);
    }
    fn flush(&self) {}
}
/// Is anyone listening to what is logged?
pub fn listen(on: bool) {
    static L: Listener = Listener;
    let _ = log::set_logger(&L);
    log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off });
}

pub const STEP_PANIC: &str = "SIM-STEP-LIMIT";

type Nested = (u64, Box<dyn FnOnce()>);
thread_local! {
    /// Operations to run in the middle of this thread's operations, latest first.
    static NEST: RefCell<Vec<Nested>> = const { RefCell::new(Vec::new()) };
}
pub fn set_nest(mut v: Vec<Nested>) {
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    NEST.with(|n| *n.borrow_mut() = v);
}
/// Takes back what was not run.
pub fn take_nest() -> Vec<Nested> {
    NEST.with(|n| std::mem::take(&mut *n.borrow_mut()))
}
fn run_nested(steps: u64) {
    loop {
        let f = NEST.with(|n| {
            let mut n = n.borrow_mut();
            match n.last() {
                Some((at, _)) if *at <= steps => n.pop().map(|x| x.1),
                _ => None,
            }
        });
        match f {
            Some(f) => {
                fault(Fault::NestedOp);
                f()
            }
            None => return,
        }
    }
}

/// What one operation may take.
pub const STEP_BUDGET: u64 = 20_000_000;
/// Another operation begins.
pub fn budget(bytes: usize) {
    with(|s| {
        if !s.tight {
            s.step_limit = s.step_limit.max(s.steps.saturating_add(STEP_BUDGET + 20 * bytes as u64));
        }
    });
}

/// One simulated step: advances the clock, enforces the step budget, and yields to the scheduler.
pub fn step(latency_ns: u64) {
    let sched = with(|s| {
        s.time_ns += latency_ns;
        s.steps += 1;
        if s.steps > s.step_limit {
            s.step_limit = u64::MAX; // only once
            return Err(());
        }
        Ok((s.sched.clone(), s.steps))
    });
    match sched {
        Err(()) => panic!("{}", STEP_PANIC),
        Ok((sched, steps)) => {
            if let Some((sch, id)) = sched {
                untracked(|| sch.yield_now(id, latency_ns));
            }
            run_nested(steps);
        }
    }
}
