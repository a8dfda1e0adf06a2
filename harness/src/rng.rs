//! SplitMix64: every random choice of a run comes from VERIF_SEED through here.
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stream.wrapping_mul(0xD1B54A32D192ED03)); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn bit(&mut self) -> bool { self.next() >> 63 == 1 }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize] }
    /// A 64-bit word biased towards interesting patterns.
    pub fn word(&mut self) -> u64 {
        match self.below(14) {
            0 => 0, 1 => !0, 2 => 1u64 << self.below(64), 3 => !(1u64 << self.below(64)),
            4 => (1u64 << self.below(64)).wrapping_sub(1), 5 => !((1u64 << self.below(64)).wrapping_sub(1)),
            6 => 0x5555555555555555, 7 => 0xAAAAAAAAAAAAAAAA, 8 => 0x8000000000000001, 9 => 0x8080808080808080,
            10 => self.next() & self.next() & self.next(), 11 => self.next() | self.next() | self.next(),
            _ => self.next(),
        }
    }
    /// A value whose magnitude is log-uniform.
    pub fn log(&mut self) -> u64 { let k = self.below(65); if k == 0 { 0 } else { let b = self.next() >> (64 - k); b | (1u64 << (k - 1)) } }
    /// A position in 0..n, biased to ends and multiples of w.
    pub fn pos(&mut self, n: u64, w: u64) -> u64 {
        if n == 0 { return 0; }
        let p = match self.below(8) {
            0 => 0, 1 => n - 1, 2 => n.saturating_sub(1 + self.below(3)),
            3 | 4 => { let k = self.below(n / w + 1) * w; (k + self.below(3)).saturating_sub(1) }
            _ => self.below(n),
        };
        p.min(n - 1)
    }
    /// A position outside 0..n.
    pub fn beyond(&mut self, n: u64, w: u64, eb: u64) -> u64 {
        match self.below(12) {
            0 | 1 | 2 => n, 3 => n + 1, 4 | 5 => n + self.below(w), 6 => (n / w + 1) * w - 1, 7 => n + self.below(1000),
            8 => u64::MAX - self.below(70), 9 => (1u64 << (32 + self.below(32))) + self.below(n.max(1)),
            10 => (u64::MAX / eb.max(1)).saturating_add(1 + self.below(3)), _ => (1u64 << 63) + self.below(3),
        }.max(n)
    }
    pub fn at(&mut self, n: u64, w: u64, eb: u64, oor: u64) -> u64 { if n == 0 || self.chance(oor, 100) { self.beyond(n, w, eb) } else { self.pos(n, w) } }
    /// A span (start, count) of n bits.
    pub fn span(&mut self, n: u64, w: u64, oor: u64) -> (u64, u64) {
        if self.chance(oor, 100) {
            return match self.below(8) {
                0 => (n, 1 + self.below(w)), 1 => (n + 1 + self.below(3), 0), 2 => (n + self.below(w) , self.range(1, w)),
                3 => { let c = self.range(1, w); ((n + 1).saturating_sub(c), c) }
                4 => (self.pos(n, w), w + 1 + self.below(2 * w)),
                5 => (0, w + 1 + self.below(3)),
                6 => { let c = self.range(1, w); (u64::MAX - self.below(c + 3), c) }
                _ => (self.pos(n, w), u64::MAX - self.below(70)),
            };
        }
        match self.below(10) {
            0 => (n, 0), 1 => (self.pos(n + 1, w), 0),
            2 => { let c = w.min(n); (self.pos(n - c + 1, w), c) }
            3 => { let c = self.below(w.min(n) + 1); (n - c, c) }
            4 | 5 => { // straddle a block boundary
                let k = (self.below(n / w + 1)) * w; let b = self.below(w); let s = k.saturating_sub(b); let s = s.min(n);
                let c = (b + self.below(w + 1)).min(w).min(n - s); (s, c) }
            _ => { let s = self.below(n + 1); (s, self.below(w.min(n - s) + 1)) }
        }
    }
}
