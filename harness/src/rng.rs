/// splitmix64: every case is a pure function of its seed.
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn us(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// lo ..= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as u64) as i64 }
    pub fn chance(&mut self, a: u64, b: u64) -> bool { self.below(b) < a }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T { v[self.us(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.us(i + 1); v.swap(i, j); } }
}
