//! Deterministic pseudorandom numbers for making scenarios concrete (splitmix64).
#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(parts: &[u64]) -> Prng {
        let mut p = Prng(0x9e37_79b9_7f4a_7c15);
        for &x in parts {
            p.0 = p.next().wrapping_add(x.wrapping_mul(0xd134_2543_de82_ef95));
        }
        p
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}
