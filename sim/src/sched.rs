//! Cooperative scheduler for real threads: exactly one task runs at a time, and which one runs next
//! is decided by the tape. A task gives up the token only at simulated I/O and callback points.

use std::sync::{Condvar, Mutex};

use crate::tape::Tape;

pub struct Sched {
    st: Mutex<St>,
    cv: Vec<Condvar>,
}

struct St {
    tape: Option<Tape>,
    current: Option<usize>,
    /// Wake-up time of each task; `None` when finished.
    ready_at: Vec<Option<u64>>,
    now: u64,
    pub switches: u64,
    pub trail: u64,
    /// After this many scheduling decisions the schedule becomes "run on", to bound the tape.
    budget: u32,
}

impl Sched {
    pub fn new(tape: Tape, n: usize) -> Self {
        Sched {
            st: Mutex::new(St {
                tape: Some(tape),
                current: None,
                ready_at: vec![Some(0); n],
                now: 0,
                switches: 0,
                trail: 0,
                budget: 600,
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        }
    }

    fn choose(&self, st: &mut St, me: Option<usize>) {
        // Tasks whose wake-up time has come are candidates; if none, jump the clock.
        let alive: Vec<usize> = (0..st.ready_at.len()).filter(|&i| st.ready_at[i].is_some()).collect();
        if alive.is_empty() {
            st.current = None;
            return;
        }
        let earliest = alive.iter().map(|&i| st.ready_at[i].unwrap()).min().unwrap();
        if st.now < earliest {
            st.now = earliest;
        }
        let now = st.now;
        let mut cand: Vec<usize> = alive.into_iter().filter(|&i| st.ready_at[i].unwrap() <= now).collect();
        // "Run on" is choice 0.
        if let Some(m) = me {
            if let Some(p) = cand.iter().position(|&c| c == m) {
                cand.swap(0, p);
            }
        }
        let i = if st.budget == 0 || cand.len() == 1 {
            0
        } else {
            st.budget -= 1;
            st.tape.as_mut().unwrap().draw(cand.len() as u32) as usize
        };
        let next = cand[i];
        st.trail = crate::tape::mix(st.trail, next as u64 + 1);
        if me.is_some() && me != Some(next) {
            st.switches += 1;
        }
        st.current = Some(next);
    }

    /// Starts the schedule (called once, by the coordinating thread, after spawning the tasks).
    pub fn start(&self) {
        let mut st = self.st.lock().unwrap();
        self.choose(&mut st, None);
        if let Some(c) = st.current {
            self.cv[c].notify_one();
        }
    }

    /// Blocks until it is `id`'s turn for the first time.
    pub fn wait_turn(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        while st.current != Some(id) {
            st = self.cv[id].wait(st).unwrap();
        }
    }

    pub fn yield_now(&self, id: usize, latency_ns: u64) {
        let mut st = self.st.lock().unwrap();
        let at = st.now + latency_ns;
        st.ready_at[id] = Some(at);
        self.choose(&mut st, Some(id));
        let next = st.current.unwrap();
        if next != id {
            self.cv[next].notify_one();
            while st.current != Some(id) {
                st = self.cv[id].wait(st).unwrap();
            }
        }
    }

    pub fn finish(&self, id: usize) {
        let mut st = self.st.lock().unwrap();
        st.ready_at[id] = None;
        self.choose(&mut st, None);
        if let Some(c) = st.current {
            self.cv[c].notify_one();
        }
    }

    /// Returns the tape, the number of preemptions, the hash of the schedule and the simulated time.
    pub fn into_parts(&self) -> (Tape, u64, u64, u64) {
        let mut st = self.st.lock().unwrap();
        (st.tape.take().unwrap(), st.switches, st.trail, st.now)
    }
}
