//! The allocator (counts what a tracked section of a thread holds; what it hands out and takes back
//! has a fixed content, so that code using memory it never wrote does the same thing every time) and
//! the source of hash keys.

use std::alloc::{GlobalAlloc, Layout, System};

use crate::state::{ALLOC_BALANCE, ALLOC_PEAK, ALLOC_TRACK, RAND_SEED};

struct Counting;

fn note(delta: isize) {
    if ALLOC_TRACK.with(|t| t.get()) {
        let now = ALLOC_BALANCE.with(|b| {
            b.set(b.get() + delta);
            b.get()
        });
        ALLOC_PEAK.with(|p| p.set(p.get().max(now)));
    }
}

const FRESH: u8 = 0xA5;
const FREED: u8 = 0xDD;
/// Past this, filling costs more than it finds.
const FILL: usize = 16 << 10;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            p.write_bytes(FRESH, l.size().min(FILL));
            note(l.size() as isize);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as isize);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        p.write_bytes(FREED, l.size().min(FILL));
        std::hint::black_box(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            if n > l.size() {
                q.add(l.size()).write_bytes(FRESH, (n - l.size()).min(FILL));
            }
            note(n as isize - l.size() as isize);
        }
        q
    }
}

/// The same for the stack a run is about to use.
#[inline(never)]
pub fn poison_stack() {
    let mut a = std::mem::MaybeUninit::<[u8; 64 << 10]>::uninit();
    unsafe { (a.as_mut_ptr() as *mut u8).write_bytes(FRESH, 64 << 10) };
    std::hint::black_box(&mut a);
}

#[global_allocator]
static A: Counting = Counting;

/// Replaces libc's: the standard library keys its hash maps from this, and so from the simulator.
///
/// # Safety
/// As for libc's.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = crate::tape::Rng::new(RAND_SEED.with(|s| s.get()));
    for i in 0..len {
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}
