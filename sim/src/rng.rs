#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}
impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        Rng(parts.iter().fold(0x5eed, |a, &p| mix(a ^ p)))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn u32b(&mut self, n: u32) -> u32 {
        self.below(u64::from(n)) as u32
    }
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// 1..=n, small values as likely as large ones
    pub fn log(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 1;
        }
        let bits = 64 - n.leading_zeros() as u64;
        let b = self.range(1, bits);
        (self.u64() & ((1u64 << b) - 1)).clamp(1, n)
    }
}
