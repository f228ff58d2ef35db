//! The one pseudo-random generator every choice of the driver comes from.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    x ^ (x >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h ^ b.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }

    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }

    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }

    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }

    /// true with probability p percent
    pub fn pct(&mut self, p: u32) -> bool {
        (self.u64() % 100) < p as u64
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }

    /// whose turn it is, `n` times among `of`
    pub fn sched(&mut self, n: usize, of: usize) -> Vec<u8> {
        // from every turn a new choice to long stretches of one
        let stay = *self.pick(&[0, 30, 60, 90, 97]);
        let mut who = self.below(of) as u8;
        (0..n)
            .map(|_| {
                if !self.pct(stay) {
                    who = self.below(of) as u8;
                }
                who
            })
            .collect()
    }

    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}
