/// xoshiro256** seeded by splitmix64.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
        let mut n = || {
            z = z.wrapping_add(0x9E3779B97F4A7C15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
            x ^ (x >> 31)
        };
        Self { s: [n(), n(), n(), n()] }
    }
    pub fn stream(seed: u64, a: u64, b: u64) -> Self {
        Self::new(seed.wrapping_add(a.wrapping_mul(0xA0761D6478BD642F)).wrapping_add(b.wrapping_mul(0xE7037ED1A0B428DB)))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn below(&mut self, n: usize) -> usize { (self.u64() % n as u64) as usize }
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn log(&mut self, a: f64, b: f64) -> f64 { (self.range(a.ln(), b.ln())).exp() }
    pub fn p(&mut self, x: f64) -> bool { self.f() < x }
    pub fn sign(&mut self) -> f64 { if self.u64() & 1 == 0 { 1. } else { -1. } }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
