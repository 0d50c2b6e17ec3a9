//! Shrinks a failing tape: shorter and smaller is simpler, and 0 is simplest.

use std::time::{Duration, Instant};

pub fn minimise(tape: Vec<u32>, limit: Duration, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let end = Instant::now() + limit;
    let mut cur = trim(tape);
    loop {
        let before = cur.clone();
        // Cut the tail.
        let mut k = cur.len() / 2;
        while k > 0 && Instant::now() < end {
            if k < cur.len() {
                let c = trim(cur[..cur.len() - k].to_vec());
                if fails(&c) {
                    cur = c;
                    continue;
                }
            }
            k /= 2;
        }
        // Delete, then zero, blocks.
        for mode in 0..2 {
            let mut k = (cur.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < cur.len() && Instant::now() < end {
                    let j = (i + k).min(cur.len());
                    let mut c = cur.clone();
                    if mode == 0 {
                        c.drain(i..j);
                    } else {
                        if c[i..j].iter().all(|&x| x == 0) {
                            i = j;
                            continue;
                        }
                        c[i..j].fill(0);
                    }
                    let c = trim(c);
                    if c != cur && fails(&c) {
                        cur = c;
                        if mode == 1 {
                            i = j;
                        }
                    } else {
                        i = j;
                    }
                }
                if k == 1 {
                    break;
                }
                k /= 2;
            }
        }
        // Lower single choices.
        let mut i = 0;
        while i < cur.len() && Instant::now() < end {
            for v in [0, cur[i] / 2, cur[i].saturating_sub(1)] {
                if i < cur.len() && v < cur[i] {
                    let mut c = cur.clone();
                    c[i] = v;
                    let c = trim(c);
                    if fails(&c) {
                        cur = c;
                        break;
                    }
                }
            }
            i += 1;
        }
        if cur == before || Instant::now() >= end {
            return cur;
        }
    }
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Drops what it can of a list.
pub fn shorten(list: Vec<u64>, limit: Duration, fails: &mut dyn FnMut(&[u64]) -> bool) -> Vec<u64> {
    let end = Instant::now() + limit;
    let mut cur = list;
    let mut k = cur.len().div_ceil(2);
    while k > 0 {
        let mut i = 0;
        while i < cur.len() && Instant::now() < end {
            let mut c = cur.clone();
            c.drain(i..(i + k).min(cur.len()));
            if fails(&c) {
                cur = c;
            } else {
                i += k;
            }
        }
        k = if k == 1 { 0 } else { k.div_ceil(2) };
    }
    cur
}
