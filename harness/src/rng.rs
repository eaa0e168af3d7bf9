//! Deterministic random numbers (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64, pub u32);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9e3779b97f4a7c15, 0); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn n(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// a count below n; in a big case (see `one`) now and then a much larger one
    pub fn k(&mut self, n: usize) -> usize { if self.1 > 0 && self.n(3) == 0 { self.1 -= 1; self.n(n * 14) } else { self.n(n) } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.n((hi - lo + 1) as usize) as i64 }
    pub fn chance(&mut self, a: usize, b: usize) -> bool { self.n(b) < a }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.n(v.len())] }
    pub fn f01(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}
pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
