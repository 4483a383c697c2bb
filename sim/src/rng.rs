//! SplitMix64/xoshiro: the only source of randomness.
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        for _ in 0..4 {
            r.u();
        }
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u() % n }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: i128, b: i128) -> i128 {
        if b <= a {
            return a;
        }
        let span = (b - a) as u128 + 1;
        let r = ((self.u() as u128) << 64) | self.u() as u128;
        a + (r % span) as i128
    }
    /// true with probability p per thousand
    pub fn p(&mut self, per_mille: u64) -> bool {
        self.below(1000) < per_mille
    }
    /// log-uniform in [a, b], a >= 1
    pub fn log(&mut self, a: i128, b: i128) -> i128 {
        let a = a.max(1);
        if b <= a {
            return a;
        }
        let la = 127 - (a as u128).leading_zeros() as i128;
        let lb = 127 - (b as u128).leading_zeros() as i128;
        let e = self.range(la, lb) as u32;
        let lo = (1i128 << e).max(a);
        let hi = if e >= 126 { b } else { ((1i128 << e) * 2 - 1).min(b) };
        self.range(lo.min(hi), hi)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let n = self.idx(v.len());
        &v[n]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t.max(1));
        for (n, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return n;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}
