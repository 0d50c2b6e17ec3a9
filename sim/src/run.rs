//! One simulated run.

use std::sync::mpsc;
use std::time::Duration;

use crate::props::{Bad, Ctx, Prop};
use crate::state::{self, Sim};
use crate::tape::{mix, Tape};

const STACK: usize = 16 << 20;

pub struct RunRes {
    pub bad: Option<Bad>,
    pub used: Vec<u32>,
    pub sim: Sim,
    pub nontrivial: bool,
    pub note: String,
}
pub enum Fail {
    Hang,
    /// The simulator itself panicked.
    Harness(String),
}

/// The seed of run number `run`: independent of how runs are spread over workers.
pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    mix(mix(seed, state::fnv(0xcbf2_9ce4_8422_2325, prop.as_bytes())), run)
}

pub fn run_one(p: &Prop, tape: Tape, verbose: bool, hang_secs: u64) -> Result<RunRes, Fail> {
    let (tx, rx) = mpsc::channel();
    let f = p.run;
    let thread = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || {
            crate::alloc::poison_stack();
            let mut t = tape;
            let hash_seed = t.seed();
            state::RAND_SEED.with(|s| s.set(hash_seed));
            state::reset(verbose);
            state::with(|s| s.step_limit = state::STEP_BUDGET);
            state::listen(hash_seed % 5 == 4);
            let mut ctx = Ctx { nontrivial: false, note: String::new(), hash_seed };
            let r = crate::ops::guarded(|| f(&mut t, &mut ctx));
            let _ = tx.send(match r {
                Ok(r) => Ok(RunRes {
                    bad: r.err(),
                    used: t.used().to_vec(),
                    sim: state::take(),
                    nontrivial: ctx.nontrivial,
                    note: ctx.note,
                }),
                Err(p) => Err(Fail::Harness(p)),
            });
        })
        .expect("thread");
    match rx.recv_timeout(Duration::from_secs(hang_secs)) {
        Ok(r) => {
            // Not left to be detached: glibc's pthread_detach reads the thread's block after it may
            // be gone.
            let _ = thread.join();
            r
        }
        Err(mpsc::RecvTimeoutError::Timeout) => Err(Fail::Hang),
        Err(mpsc::RecvTimeoutError::Disconnected) => Err(Fail::Harness("run thread died".into())),
    }
}
