//! The choice tape: the one thing that decides a run.
//!
//! While searching, choices come from a PRNG seeded from (VERIF_SEED, property, run number) and are
//! recorded. While replaying or minimising, they come from a recorded tape; past its end every
//! choice is 0, which everywhere means "the simplest thing" (no fault, smallest document, run on).

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(32));
    r.next() ^ b.wrapping_mul(0xA076_1D64_78BD_642F)
}

pub struct Tape {
    vals: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    used: Vec<u32>,
    /// Every choice goes out as it is made, for when the process does not survive the run.
    record: bool,
    rare: u32,
}

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { vals: Vec::new(), pos: 0, rng: Some(Rng::new(seed)), used: Vec::new(), record: false, rare: 0 }
    }
    pub fn from_vals(vals: Vec<u32>) -> Self {
        Tape { vals, pos: 0, rng: None, used: Vec::new(), record: false, rare: 0 }
    }
    pub fn record(&mut self) {
        self.record = true;
    }
    pub fn used(&self) -> &[u32] {
        &self.used
    }

    /// A choice in `0..n`.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n as u64) as u32,
            None => self.vals.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        self.used.push(v);
        if self.record {
            crate::replay::say_draw(v);
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    /// `lo..=hi`, simplest at `lo`.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; 0 means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.draw(den) >= den.saturating_sub(num)
    }
    /// True with probability 1/`den`, but not more than twice in a run: for what is expensive.
    pub fn rare(&mut self, den: u32) -> bool {
        let r = self.chance(1, den) && self.rare < 2;
        self.rare += r as u32;
        r
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    /// Weighted choice; index 0 should be the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// Seed for a derived sub-generator.
    pub fn seed(&mut self) -> u64 {
        self.draw(1 << 20) as u64
    }
    /// Small geometric-ish size in `0..=max`.
    pub fn small(&mut self, max: usize) -> usize {
        let a = self.below(max + 1);
        if a == 0 {
            return 0;
        }
        let b = self.below(max + 1);
        a.min(b.max(1))
    }
}
