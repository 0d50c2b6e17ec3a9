//! Replay files, and runs in a process of their own.
//!
//! The checking process never simulates anything itself: a worker searches, and every run that is
//! minimised, confirmed or replayed is given to a fresh process (`sim exec`) over a pipe. A run is
//! its tape and, where what it does depends on what its process did before, the runs before it.

use std::fmt::Write as _;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::run::{run_one, Fail};
use crate::tape::Tape;
use crate::worker::{esc, limit_memory, prop, unesc};
use crate::HANG_SECS;

pub const CRASH: &str = "process-dies";
pub const HANG: &str = "hangs";
/// The simulator's own code panicked: something it relies on is not so any more.
pub const BROKE: &str = "simulation-broke";

#[derive(Clone)]
pub enum Last {
    Seed(u64),
    Tape(Vec<u32>),
}
/// What to run in a fresh process.
#[derive(Clone)]
pub struct Job {
    pub prop: String,
    /// Seeds of the runs before.
    pub history: Vec<u64>,
    pub last: Last,
}
/// What came of it.
#[derive(Default)]
pub struct Out {
    /// `None`: no violation.
    pub class: Option<String>,
    pub detail: String,
    /// Hash of the last run's event log; 0 if the process did not survive it.
    pub log: u64,
    pub tape: Vec<u32>,
    pub lines: Vec<String>,
}

fn nums<T: std::fmt::Display>(v: &[T]) -> String {
    let v: Vec<String> = v.iter().map(|v| v.to_string()).collect();
    v.join(" ")
}
fn parsed<T: std::str::FromStr>(s: &str) -> Option<Vec<T>> {
    s.split_whitespace().map(|v| v.parse().ok()).collect()
}
fn field<'a>(s: &'a str, k: &str) -> Option<&'a str> {
    s.lines().find_map(|l| l.strip_prefix(k)).map(|v| v.trim())
}

impl Job {
    fn text(&self) -> String {
        let mut s = format!("property: {}\n", self.prop);
        if !self.history.is_empty() {
            let _ = writeln!(s, "history: {}", nums(&self.history));
        }
        match &self.last {
            Last::Seed(n) => writeln!(s, "seed: {}", n).unwrap(),
            Last::Tape(t) => writeln!(s, "tape: {}", nums(t)).unwrap(),
        }
        s
    }
    fn parse(s: &str) -> Option<Job> {
        Some(Job {
            prop: field(s, "property:")?.to_owned(),
            history: field(s, "history:").map_or(Some(Vec::new()), parsed)?,
            last: match field(s, "tape:") {
                Some(t) => Last::Tape(parsed(t)?),
                None => Last::Seed(field(s, "seed:")?.parse().ok()?),
            },
        })
    }

    /// Runs it, giving up (a hang) after `secs`.
    pub fn run(&self, secs: u64) -> Out {
        let mut c = Command::new(std::env::current_exe().unwrap())
            .arg("exec")
            .env_clear()
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("a process for a run");
        // The child reads all of it before it answers.
        let _ = c.stdin.take().unwrap().write_all(self.text().as_bytes());
        let mut pipe = c.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut v = Vec::new();
            let _ = pipe.read_to_end(&mut v);
            v
        });
        let end = Instant::now() + Duration::from_secs(secs);
        let mut nap = 200;
        let status = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if Instant::now() > end {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 2).min(5000);
        };
        let text = String::from_utf8_lossy(&reader.join().unwrap()).into_owned();
        let mut o = Out::default();
        let mut done = false;
        for l in text.lines() {
            match l.split_once('\t') {
                Some(("T", v)) => o.tape.extend(v.parse::<u32>()),
                Some(("C", v)) => o.class = Some(unesc(v)),
                Some(("D", v)) => o.detail = unesc(v),
                Some(("G", v)) => {
                    o.log = v.parse().unwrap_or(0);
                    done = true;
                }
                Some(("L", v)) => o.lines.push(unesc(v)),
                _ => {}
            }
        }
        let died = |class: &str, detail: String, tape| Out { class: Some(class.into()), detail, tape, ..Out::default() };
        match status {
            None => died(HANG, format!("no result after {} s", secs), o.tape),
            Some(s) if !s.success() || !done => died(CRASH, format!("the process died: {}", s), o.tape),
            Some(_) => {
                if let (Last::Tape(t), true) = (&self.last, o.tape.is_empty()) {
                    o.tape = t.clone();
                }
                o
            }
        }
    }
}

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn personality(p: u64) -> i32;
}
/// Same addresses in every process started from here on, where the system allows it.
pub fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: u64 = 0x004_0000;
    unsafe { personality(ADDR_NO_RANDOMIZE) };
}
/// Without touching the heap: the process may not live long.
pub fn say_draw(v: u32) {
    let mut b = *b"T\t0000000000\n";
    let (mut v, mut i) = (v, 12);
    while i > 2 {
        i -= 1;
        b[i] = b'0' + (v % 10) as u8;
        v /= 10;
    }
    unsafe { write(1, b.as_ptr(), b.len()) };
}

/// `sim exec`: a job on stdin, its outcome on stdout.
pub fn exec() -> i32 {
    limit_memory();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let j = Job::parse(&s).expect("a job");
    drop(s);
    let p = prop(&j.prop);
    crate::props::start_zygote(&j.prop);
    for &seed in &j.history {
        if run_one(&p, Tape::from_seed(seed), false, 1_000_000).is_err() {
            return 3;
        }
    }
    let tape = match j.last {
        Last::Seed(s) => {
            let mut t = Tape::from_seed(s);
            t.record();
            t
        }
        Last::Tape(t) => Tape::from_vals(t),
    };
    let mut o = String::new();
    match run_one(&p, tape, true, 1_000_000) {
        Ok(x) => {
            for l in x.sim.lines.unwrap_or_default() {
                let _ = writeln!(o, "L\t{}", esc(&l));
            }
            if let Some(b) = x.bad {
                let _ = writeln!(o, "C\t{}\nD\t{}", esc(&b.class), esc(&b.detail));
            }
            let _ = writeln!(o, "G\t{}", x.sim.log_hash);
        }
        Err(Fail::Harness(m)) => {
            let _ = writeln!(o, "C\t{}\nD\t{}\nG\t0", BROKE, esc(&m));
        }
        Err(Fail::Hang) => return 3,
    }
    let mut w = std::io::stdout().lock();
    let _ = w.write_all(o.as_bytes());
    let _ = w.flush();
    0
}

/// A replay file.
pub fn text(job: &Job, o: &Out, origin: &str) -> String {
    let mut s = String::new();
    let _ = writeln!(s, "static-xml-sim replay 1");
    let _ = writeln!(s, "class: {}", o.class.as_deref().unwrap_or("-"));
    let _ = writeln!(s, "origin: {}", origin);
    let _ = writeln!(s, "log: {:016x}", o.log);
    s.push_str(&job.text());
    let _ = writeln!(s, "to repeat: ./check.sh replay <this file>");
    let _ = writeln!(s, "--- violation\n{}", o.detail);
    let _ = writeln!(s, "--- schedule, faults and events of the minimised run");
    for l in &o.lines {
        let _ = writeln!(s, "{}", l);
    }
    s
}

/// Repeats a run in a fresh process; exit 1 if it fails.
pub fn replay(file: &str) -> i32 {
    fixed_addresses();
    let read = || {
        let s = std::fs::read_to_string(file).ok()?;
        let class = field(&s, "class:")?.to_owned();
        let log = u64::from_str_radix(field(&s, "log:")?, 16).ok()?;
        // What follows is for people.
        let s = s.split("\n--- ").next()?;
        Some((Job::parse(s)?, class, log))
    };
    let Some((job, class, log)) = read() else {
        eprintln!("cannot read replay file {}", file);
        return 2;
    };
    let o = job.run(if class == HANG { HANG_SECS } else { 600 });
    for l in &o.lines {
        println!("  {}", l);
    }
    match &o.class {
        None => {
            println!("no violation");
            0
        }
        Some(c) => {
            println!("{}: {}", c, o.detail);
            println!(
                "{}",
                if *c == class && o.log == log {
                    "reproduced exactly (same violation, same event log)"
                } else if *c == class {
                    "same violation, but another event log: the code differs from that of the report"
                } else {
                    "another violation: the code differs from that of the report"
                }
            );
            println!("VIOLATION property={} replay={}", job.prop, file);
            1
        }
    }
}
