//! A worker process: runs number `start`, `start + stride`, ... in turn.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

use crate::props::{self, Prop};
use crate::replay;
use crate::run::{run_one, run_seed, Fail};
use crate::state::{FAULT_NAMES, N_FAULTS};
use crate::tape::Tape;
use crate::HANG_SECS;

pub fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {}", id);
        std::process::exit(2)
    })
}

pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unesc(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            r.push(c);
            continue;
        }
        match it.next() {
            Some('n') => r.push('\n'),
            Some('t') => r.push('\t'),
            Some(c) => r.push(c),
            None => {}
        }
    }
    r
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
}
/// A runaway allocation must end this process, not the sandbox.
pub fn limit_memory() {
    let l = RLimit { cur: 3 << 30, max: 3 << 30 };
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    let c = RLimit { cur: 0, max: 0 };
    unsafe {
        setrlimit(RLIMIT_AS, &l);
        setrlimit(RLIMIT_CORE, &c);
    }
}

/// Violations of one class a worker reports before it stops.
const ENOUGH: usize = 6;

pub fn worker(id: &str, seed: u64, start: u64, stride: u64, count: u64, secs: u64, out: &str) -> i32 {
    limit_memory();
    let p = prop(id);
    props::start_zygote(id);
    let mut f = File::create(out).unwrap();
    let status = File::create(format!("{}.status", out)).unwrap();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(secs);
    let mut hashes: Vec<u64> = Vec::new();
    let mut faults = [0u64; N_FAULTS];
    let mut faulted_runs = [0u64; N_FAULTS];
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut runs, mut nontrivial, mut events, mut sim_ns, mut steps, mut draws, mut bads) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0usize);
    let mut per_class: BTreeMap<String, usize> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut n = start;
    let mut capped = false;
    while n < count {
        if Instant::now() > deadline {
            capped = true;
            break;
        }
        status.write_all_at(&n.to_le_bytes(), 0).unwrap();
        let s = run_seed(seed, id, n);
        let r = match run_one(&p, Tape::from_seed(s), false, HANG_SECS) {
            Ok(r) => r,
            Err(Fail::Hang) => {
                writeln!(f, "V\t{}\t{}\t", n, replay::HANG).unwrap();
                break;
            }
            Err(Fail::Harness(m)) => {
                writeln!(f, "V\t{}\t{}\t{}", n, replay::BROKE, esc(&m)).unwrap();
                break;
            }
        };
        runs += 1;
        events += r.sim.log_events;
        sim_ns += r.sim.time_ns;
        steps += r.sim.steps;
        draws += r.used.len() as u64;
        for i in 0..N_FAULTS {
            faults[i] += r.sim.faults[i];
            faulted_runs[i] += (r.sim.faults[i] > 0) as u64;
        }
        for (k, v) in r.sim.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if r.nontrivial {
            nontrivial += 1;
            hashes.push(r.sim.log_hash);
            if samples.len() < 2 && runs > 3 {
                samples.push(format!("run {} (seed {}): {}", n, s, r.note));
            }
        }
        if let Some(b) = r.bad {
            let k = per_class.entry(b.class.clone()).or_insert(0);
            *k += 1;
            bads += 1;
            if *k <= 2 {
                writeln!(f, "V\t{}\t{}\t{}", n, esc(&b.class), esc(&b.detail)).unwrap();
            }
            if *k >= ENOUGH && !crate::check::is_known(id, &b.class) {
                break;
            }
        }
        n += stride;
    }
    for (k, v) in [
        ("runs", runs),
        ("nontrivial", nontrivial),
        ("events", events),
        ("sim_ns", sim_ns),
        ("steps", steps),
        ("draws", draws),
        ("bad", bads as u64),
        ("capped", capped as u64),
        ("millis", t0.elapsed().as_millis() as u64),
    ] {
        writeln!(f, "S\t{}\t{}", k, v).unwrap();
    }
    for i in 0..N_FAULTS {
        writeln!(f, "F\t{}\t{}\t{}", FAULT_NAMES[i], faults[i], faulted_runs[i]).unwrap();
    }
    for (k, v) in probes {
        writeln!(f, "P\t{}\t{}", k, v).unwrap();
    }
    for s in samples {
        writeln!(f, "X\t{}", esc(&s)).unwrap();
    }
    let mut h = Vec::with_capacity(hashes.len() * 8);
    for x in hashes {
        h.extend_from_slice(&x.to_le_bytes());
    }
    std::fs::write(format!("{}.hashes", out), h).unwrap();
    writeln!(f, "D").unwrap();
    0
}

pub fn one(id: &str, seed: u64, n: u64) -> i32 {
    let p = prop(id);
    props::start_zygote(id);
    match run_one(&p, Tape::from_seed(run_seed(seed, id, n)), true, HANG_SECS) {
        Ok(r) => {
            for l in r.sim.lines.unwrap_or_default() {
                println!("  {}", l);
            }
            println!("note: {}", r.note);
            println!("nontrivial: {}  log {:016x}", r.nontrivial, r.sim.log_hash);
            if let Some(b) = r.bad {
                println!("BAD {}: {}", b.class, b.detail);
                return 1;
            }
            0
        }
        Err(Fail::Hang) => {
            println!("HANG");
            1
        }
        Err(Fail::Harness(m)) => {
            println!("HARNESS {}", m);
            2
        }
    }
}

/// Prints the log hash of each run: to compare processes, worker counts, orders.
pub fn hashes(id: &str, seed: u64, count: u64) -> i32 {
    let p = prop(id);
    props::start_zygote(id);
    for n in 0..count {
        match run_one(&p, Tape::from_seed(run_seed(seed, id, n)), false, HANG_SECS) {
            Ok(r) => println!("{} {} {:016x} {} {}", id, n, r.sim.log_hash, r.used.len(), r.bad.map_or(String::new(), |b| b.class)),
            Err(_) => println!("{} {} failed", id, n),
        }
    }
    0
}
