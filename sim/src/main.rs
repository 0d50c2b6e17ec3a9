//! Deterministic simulation of static-xml under fault injection. See /verif/DESIGN.md.
#![allow(dead_code)]

mod alloc;
mod check;
mod docgen;
mod gen_types;
mod io;
mod leaf;
mod minimise;
mod ops;
mod props;
mod refmodel;
mod refxml;
mod replay;
mod run;
mod sched;
mod schema;
mod script;
mod serscript;
mod state;
mod tape;
mod worker;
mod zygote;

/// Real seconds without a result before a run counts as hung. Runs take milliseconds.
pub const HANG_SECS: u64 = 40;

fn usage() -> ! {
    eprintln!("usage: sim check PROP quick|thorough | replay FILE | one PROP SEED RUN | hashes PROP SEED COUNT | list");
    std::process::exit(2);
}

fn main() {
    ops::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| usage());
    let code = match a.get(1..).unwrap_or(&[]) {
        ["check", p, tier @ ("quick" | "thorough")] => check::check(p, tier),
        ["worker", p, seed, start, stride, count, secs, out] => {
            worker::worker(p, num(seed), num(start), num(stride), num(count), num(secs), out)
        }
        ["replay", f] => replay::replay(f),
        ["exec"] => replay::exec(),
        ["one", p, seed, n] => worker::one(p, num(seed), num(n)),
        ["hashes", p, seed, n] => worker::hashes(p, num(seed), num(n)),
        ["list"] => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => usage(),
    };
    // Threads of hung runs may still be around.
    std::process::exit(code);
}
