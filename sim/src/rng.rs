//! The only source of randomness: every choice in a run derives from one u64.

pub use ndbelow::mix;

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
    /// What most strings of a plan are variations of.
    pub family: Option<std::sync::Arc<str>>,
}

pub fn hash_bytes(seed: u64, bytes: &[u8]) -> u64 {
    let mut h = mix(seed ^ bytes.len() as u64);
    for c in bytes.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        h = mix(h ^ u64::from_le_bytes(b));
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut z = seed;
        for v in &mut s {
            z = mix(z);
            *v = z;
        }
        Rng { s, family: None }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }

    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// True in `n` of `d` cases.
    pub fn chance(&mut self, n: usize, d: usize) -> bool {
        self.below(d) < n
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }

    /// Index chosen by weight.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut n = self.below(total);
        for (i, w) in w.iter().enumerate() {
            if n < *w {
                return i;
            }
            n -= w;
        }
        w.len() - 1
    }

    /// Mostly small, sometimes large.
    pub fn size(&mut self, typical: usize, max: usize) -> usize {
        match self.below(24) {
            0 => self.below(max + 1),
            1..=3 => self.below((typical * 3).min(max) + 1),
            _ => self.below(typical.min(max) + 1),
        }
    }
}
