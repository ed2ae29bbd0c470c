//! SplitMix64: every random choice of the machinery goes through this, from VERIF_SEED.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn of(parts: &[u64]) -> Self {
        let mut s = 0x243F6A8885A308D3u64;
        for p in parts {
            s = Rng(s ^ p.wrapping_mul(0xD6E8FEB86659FD93)).next();
        }
        Rng::new(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    /// A value biased towards the interesting ones of n bits.
    pub fn bits(&mut self, n: u32) -> u64 {
        let m = mask(n);
        match self.below(8) {
            0 => 0,
            1 => m,
            2 => 1u64.wrapping_shl(self.below(n as u64) as u32) & m,
            3 => m ^ (1u64.wrapping_shl(self.below(n as u64) as u32) & m),
            4 => self.next() & self.next() & m,
            _ => self.next() & m,
        }
    }
}

pub fn mask(n: u32) -> u64 {
    if n >= 64 { u64::MAX } else { (1u64 << n) - 1 }
}

pub fn hash(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
