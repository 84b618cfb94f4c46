//! SplitMix64 with the few distributions needed; every random choice of a run comes from here.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn fork(&self, salt: u64) -> Rng { let mut r = Rng(self.0 ^ salt.wrapping_mul(0xD6E8FEB86659FD93).wrapping_add(0x1234567)); r.next(); r.next(); r }
    pub fn unif(&mut self) -> f64 { ((self.next() >> 11) as f64 + 0.5) / (1u64 << 53) as f64 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn norm(&mut self) -> f64 { (-2. * self.unif().ln()).sqrt() * (2. * std::f64::consts::PI * self.unif()).cos() }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut p: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { p.swap(i, self.below(i + 1)); } p }
    pub fn poisson(&mut self, mu: f64) -> f64 { let l = (-mu).exp(); let (mut k, mut p) = (0., 1.); loop { p *= self.unif(); if p <= l { return k; } k += 1.; if k > 2000. { return k; } } }
    pub fn gamma(&mut self, a: f64) -> f64 { // Marsaglia-Tsang, a >= 1
        let d = a - 1. / 3.; let c = 1. / (9. * d).sqrt();
        loop { let z = self.norm(); let v = 1. + c * z; if v <= 0. { continue; } let v = v * v * v; if self.unif().ln() < 0.5 * z * z + d - d * v + d * v.ln() { return d * v; } } }
    pub fn invgauss(&mut self, mu: f64, lambda: f64) -> f64 {
        let v = self.norm(); let y = v * v; let x = mu + mu * mu * y / (2. * lambda) - mu / (2. * lambda) * (4. * mu * lambda * y + mu * mu * y * y).sqrt();
        let x = x.max(1e-6);
        if self.unif() <= mu / (mu + x) { x } else { mu * mu / x } }
}
