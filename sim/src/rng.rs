//! The single source of nondeterminism.  Every decision of a simulated run (workload, segmentation,
//! interleaving, delays, faults) is one call of `below`; the run is a pure function of the sequence
//! of values returned.  In `Gen` mode the values come from a PRNG seeded from (VERIF_SEED, property,
//! run number) and are recorded; in `Replay` mode they come from a recorded (possibly minimised)
//! sequence.  0 is always the simplest choice, and an exhausted sequence yields 0.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf29ce484222325;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

enum Mode {
    Gen([u64; 4]),
    Replay(Vec<u64>, usize),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    /// crash-safe copy of the choices (shared memory), word 0 is the count
    pub mirror: *mut u64,
}

impl Src {
    pub fn gen(seed: u64) -> Src {
        let mut s = [0u64; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Src { mode: Mode::Gen(s), rec: Vec::new(), mirror: std::ptr::null_mut() }
    }
    pub fn replay(v: Vec<u64>) -> Src {
        Src { mode: Mode::Replay(v, 0), rec: Vec::new(), mirror: std::ptr::null_mut() }
    }
    fn raw(&mut self) -> u64 {
        match &mut self.mode {
            Mode::Gen(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                r
            }
            Mode::Replay(v, p) => {
                let r = v.get(*p).copied().unwrap_or(0);
                *p += 1;
                r
            }
        }
    }
    /// A value in 0..n (n >= 1).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let r = self.raw() % n;
        self.rec.push(r);
        if !self.mirror.is_null() && self.rec.len() < (1 << 19) - 2 {
            unsafe {
                *self.mirror.add(self.rec.len()) = r;
                *self.mirror = self.rec.len() as u64;
            }
        }
        r
    }
    pub fn usz(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usz(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let r = self.below(den);
        r >= den - num
    }
    pub fn flip(&mut self) -> bool {
        self.chance(1, 2)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usz(xs.len())]
    }
    /// Weighted pick: index.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let t: u64 = ws.iter().sum();
        let mut r = self.below(t);
        for (i, w) in ws.iter().enumerate() {
            if r < *w {
                return i;
            }
            r -= *w;
        }
        ws.len() - 1
    }
}
