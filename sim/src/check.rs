//! A whole check: worker processes, merging, minimising, reporting.

use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

use crate::minimise::{minimise, shorten};
use crate::ops::clip;
use crate::props::Prop;
use crate::replay::{self, Job, Last, Out, CRASH, HANG};
use crate::run::run_seed;
use crate::worker::{prop, unesc};
use crate::HANG_SECS;

const WORKERS: u64 = 8;

/// /verif, wherever it is: this crate lives in `sim` under it.
pub fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_owned()
}
pub fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("static-xml-sim.{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Listed findings: `finding: property=<id> class=<class> <what fails>`.
fn findings() -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (id, l) = l.split_once(" class=")?;
            let (class, what) = l.split_once(' ')?;
            Some((id.to_owned(), class.to_owned(), what.to_owned()))
        })
        .collect()
}
pub fn is_known(id: &str, class: &str) -> bool {
    findings().iter().any(|f| f.0 == id && f.1 == class)
}

struct Found {
    run: u64,
    class: String,
    detail: String,
}

pub fn json(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            '\r' => r.push_str("\\r"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn check(id: &str, tier: &str) -> i32 {
    let p = prop(id);
    let t0 = Instant::now();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64;
    println!("{} {} seed={}", id, tier, seed as i64);
    let (mut count, secs) = if tier == "quick" { (p.quick, 240) } else { (p.thorough, 4 * 3600) };
    if let Some(n) = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        count = n;
    }
    let workers = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(WORKERS);
    replay::fixed_addresses();
    let dir = scratch();
    let exe = std::env::current_exe().unwrap();
    let out = |w: u64| dir.join(format!("w{}", w));
    let spawn = |w: u64| {
        let _ = std::fs::remove_file(format!("{}.status", out(w).display()));
        Command::new(&exe)
            .args(["worker", id, &seed.to_string(), &w.to_string(), &workers.to_string(), &count.to_string(), &secs.to_string()])
            .arg(out(w))
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .expect("worker")
    };
    let mut kids: Vec<(u64, Child, Option<bool>)> = (0..workers).map(|w| (w, spawn(w), None)).collect();
    let mut again: HashSet<u64> = HashSet::new();
    // A worker looks after its own runs; this is for one that does not even do that.
    let last = t0 + Duration::from_secs(secs + HANG_SECS + 60);
    loop {
        let mut open = 0;
        for k in &mut kids {
            if k.2.is_none() {
                match k.1.try_wait() {
                    // What the runs do to their process they do to it again; what something else
                    // did (memory ran out) need not come back.
                    Ok(Some(s)) if !s.success() && again.insert(k.0) => {
                        k.1 = spawn(k.0);
                        open += 1;
                    }
                    Ok(Some(s)) => k.2 = Some(s.success()),
                    _ if Instant::now() > last => {
                        let _ = k.1.kill();
                        let _ = k.1.wait();
                        k.2 = Some(false);
                    }
                    _ => open += 1,
                }
            }
        }
        if open == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let searched = t0.elapsed();

    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut faults: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut found: Vec<Found> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for (w, _, ok) in &kids {
        let path = out(*w);
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let mut done = false;
        for l in text.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[..] {
                ["V", run, class, detail] => found.push(Found { run: run.parse().unwrap(), class: unesc(class), detail: unesc(detail) }),
                ["S", k, v] => *sums.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap(),
                ["F", k, n, r] => {
                    let e = faults.entry(k.into()).or_insert((0, 0));
                    e.0 += n.parse::<u64>().unwrap();
                    e.1 += r.parse::<u64>().unwrap();
                }
                ["P", k, n] => *probes.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap(),
                ["X", s] => samples.push(unesc(s)),
                ["D"] => done = true,
                _ => {}
            }
        }
        if let Ok(h) = std::fs::read(format!("{}.hashes", path.display())) {
            for c in h.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if !done || *ok != Some(true) {
            let st = std::fs::read(format!("{}.status", path.display())).unwrap_or_default();
            if st.len() == 8 {
                let run = u64::from_le_bytes(st.try_into().unwrap());
                found.push(Found { run, class: CRASH.into(), detail: "the process died".into() });
            } else {
                errors.push(format!("worker {} did not run", w));
            }
        }
    }
    samples.truncate(6);

    // The earliest run of each class is what gets reported.
    found.sort_by(|a, b| (&a.class, a.run).cmp(&(&b.class, b.run)));
    let total_found = found.len();
    found.dedup_by(|b, a| a.class == b.class);
    let listed = findings();
    let (known, new): (Vec<Found>, Vec<Found>) = found.into_iter().partition(|f| listed.iter().any(|l| l.0 == id && l.1 == f.class));
    for l in listed.iter().filter(|l| l.0 == id) {
        println!("KNOWN-FINDING: property={} {} [{}]", id, l.2, l.1);
    }
    let mut reported = Vec::new();
    for f in new.into_iter().take(4) {
        match report(&p, seed, workers, f) {
            Ok(path) => {
                println!("VIOLATION property={} replay={}", id, path);
                reported.push(path);
            }
            Err(m) => errors.push(m),
        }
    }
    evidence(&p, tier, seed, count, &sums, &faults, &probes, &samples, distinct.len() as u64, searched, t0, &reported, known.len(), total_found);
    let _ = std::fs::remove_dir_all(&dir);
    let n = |k: &str| sums.get(k).copied().unwrap_or(0);
    println!(
        "{}: {} runs, {} non-trivial, {} distinct, {} events, {:.1} s, {} violations",
        id,
        n("runs"),
        n("nontrivial"),
        distinct.len(),
        n("events"),
        t0.elapsed().as_secs_f64(),
        reported.len()
    );
    if !reported.is_empty() {
        return 1;
    }
    for e in &errors {
        eprintln!("the simulator failed: {}", e);
    }
    if !errors.is_empty() {
        return 2;
    }
    0
}

/// Finds what it takes to repeat a violation, minimises that, writes the replay file, and checks that
/// the file does reproduce it exactly.
fn report(p: &Prop, verif_seed: u64, workers: u64, f: Found) -> Result<String, String> {
    let origin = format!("VERIF_SEED {} run {} (seed {})", verif_seed as i64, f.run, run_seed(verif_seed, p.id, f.run));
    let secs = if f.class == HANG { HANG_SECS } else { 120 };
    let mut job = Job { prop: p.id.into(), history: Vec::new(), last: Last::Seed(run_seed(verif_seed, p.id, f.run)) };
    let mut o = job.run(secs);
    if o.class.is_none() {
        // Then it takes the runs its worker did before.
        let before: Vec<u64> = (0..).map(|k| f.run % workers + k * workers).take_while(|&r| r < f.run).map(|r| run_seed(verif_seed, p.id, r)).collect();
        let end = Instant::now() + Duration::from_secs(150);
        let mut n = 1;
        while o.class.is_none() {
            job.history = before[before.len().saturating_sub(n)..].to_vec();
            o = job.run(secs);
            if n >= before.len() || Instant::now() > end {
                break;
            }
            n *= 8;
        }
        let Some(c) = o.class.clone() else {
            return Err(format!("{}: {} did not repeat: {}", origin, f.class, f.detail));
        };
        let last = job.last.clone();
        job.history = shorten(std::mem::take(&mut job.history), Duration::from_secs(40), &mut |h| {
            Job { prop: p.id.into(), history: h.to_vec(), last: last.clone() }.run(60).class.as_ref() == Some(&c)
        });
    }
    let c = o.class.clone().unwrap_or_default();
    let (limit, small) = match &*c {
        HANG => (60, 4),
        CRASH => (40, 30),
        _ => (25, 30),
    };
    let with = |t: &[u32]| Job { last: Last::Tape(t.to_vec()), ..job.clone() };
    let same = |o: &Out| o.class.as_ref() == Some(&c);
    let mut tape = o.tape.clone();
    if with(&tape).run(secs).class.as_ref() == Some(&c) {
        tape = minimise(tape, Duration::from_secs(limit), &mut |t| same(&with(t).run(small)));
        job = with(&tape);
    } // Else it is the seed that repeats it.
    let secs = if c == HANG { HANG_SECS } else { 120 };
    let (a, b) = (job.run(secs), job.run(secs));
    if !same(&a) || !same(&b) || a.log != b.log || a.detail != b.detail && c != HANG {
        return Err(format!("{}: {} does not repeat exactly: {}", origin, c, f.detail));
    }
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let slug: String = c.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' { c } else { '_' }).collect();
    let path = dir.join(format!("{}-{}.replay", p.id, clip(&slug, 60)));
    std::fs::write(&path, replay::text(&job, &a, &origin)).map_err(|e| e.to_string())?;
    println!("{} [{}] {}", p.id, c, clip(&a.detail.replace('\n', " "), 1500));
    Ok(path.display().to_string())
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    count: u64,
    sums: &BTreeMap<String, u64>,
    faults: &BTreeMap<String, (u64, u64)>,
    probes: &BTreeMap<String, u64>,
    samples: &[String],
    distinct: u64,
    searched: Duration,
    t0: Instant,
    reported: &[String],
    known: usize,
    total_found: usize,
) {
    let n = |k: &str| sums.get(k).copied().unwrap_or(0);
    let per_hour = |x: u64| (x as f64 / searched.as_secs_f64().max(0.001) * 3600.0) as u64;
    let list = |v: &[String]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let missing: Vec<String> = p
        .expect
        .iter()
        .filter(|e| faults.get(**e).map_or(0, |f| f.0) == 0 && probes.get(**e).copied().unwrap_or(0) == 0)
        .map(|e| e.to_string())
        .collect();
    if !missing.is_empty() {
        println!("note: never reached: {}", missing.join(", "));
    }
    let fl: Vec<String> = faults
        .iter()
        .filter(|f| f.1 .0 > 0)
        .map(|(k, v)| format!("{}: {{\"times\": {}, \"runs\": {}}}", json(k), v.0, v.1))
        .collect();
    let pl: Vec<String> = probes.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect();
    let samples: Vec<String> = if samples.is_empty() { vec!["no non-trivial run".to_owned()] } else { samples.to_vec() };
    let s = format!(
        r#"{{
 "property": {},
 "tier": {},
 "seed": {},
 "level": "exploration",
 "coverage": {{
  "evaluations": {},
  "distinct_nontrivial": {},
  "rule": {},
  "samples": [{}],
  "nontrivial_runs": {},
  "distinct_measure": "64-bit hash of the run's event log: every delivered chunk, fault, callback decision, schedule choice and outcome, in order",
  "runs_planned": {},
  "stopped_by_time": {},
  "simulated_runs_per_hour": {},
  "seeds_per_hour": {},
  "simulated_seconds": {:.3},
  "simulated_steps": {},
  "logged_events": {},
  "choices_drawn": {},
  "faults_injected": {{{}}},
  "probes": {{{}}},
  "expected_but_never_reached": [{}],
  "real_code": ["static-xml (de, ser, lib)", "static-xml-derive (code generated for {} simulated types)", "xml-rs 0.8.4", "std buffering writers (C08)"],
  "stubbed": ["byte source", "byte sink and store", "latency clock", "thread scheduler", "hash-key randomness (getrandom)", "user callbacks and Serialize/Deserialize leaves"],
  "violating_runs_recorded": {},
  "known_findings_seen": {}
 }},
 "assumptions": [{}],
 "wall_s": {:.3},
 "violations": {},
 "replays": [{}]
}}
"#,
        json(p.id),
        json(tier),
        seed as i64,
        n("runs"),
        distinct,
        json(p.rule),
        list(&samples),
        n("nontrivial"),
        count,
        n("capped") > 0,
        per_hour(n("runs")),
        per_hour(n("runs")),
        n("sim_ns") as f64 / 1e9,
        n("steps"),
        n("events"),
        n("draws"),
        fl.join(", "),
        pl.join(", "),
        list(&missing),
        crate::gen_types::TYPES.len(),
        total_found,
        known,
        list(&[
            "search samples; it does not enumerate".to_owned(),
            "the reference event stream for reads is xml-rs 0.8.4's, the same version the library is built with; its own lexical behaviour is not judged".to_owned(),
            "code between two I/O calls or callbacks runs without interruption by other tasks (the library has no other synchronisation point)".to_owned(),
        ]),
        t0.elapsed().as_secs_f64(),
        reported.len(),
        list(reported),
    );
    let d = root().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    if let Err(e) = std::fs::write(d.join(format!("{}.json", p.id)), s) {
        eprintln!("cannot write evidence: {}", e);
        std::process::exit(2);
    }
}
