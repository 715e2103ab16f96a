//! The single source of every decision of a run: a seeded, recorded, replayable sequence of draws.

#[derive(Clone)]
pub struct Prng(u64);

impl Prng {
    pub fn new(seed: u64) -> Self {
        Prng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn fill(&mut self, buf: &mut [u8]) {
        for c in buf.chunks_mut(8) {
            let x = self.next().to_le_bytes();
            c.copy_from_slice(&x[..c.len()]);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Prng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b.rotate_left(29)).next()
}

pub struct Choices {
    replay: Option<Vec<u32>>,
    pos: usize,
    rng: Prng,
    /// Where the draws are recorded so that they outlive the process: [count, draws...].
    mirror: Option<(usize, usize)>,
}

impl Choices {
    pub fn random(seed: u64) -> Self {
        Choices { replay: None, pos: 0, rng: Prng::new(seed), mirror: None }
    }
    pub fn replay(seq: Vec<u32>) -> Self {
        Choices { replay: Some(seq), pos: 0, rng: Prng::new(0), mirror: None }
    }
    /// Records every draw in shared memory of `cap` words at `at`.
    pub fn recorded(mut self, at: *mut u32, cap: usize) -> Self {
        unsafe { *at = 0 };
        self.mirror = Some((at as usize, cap));
        self
    }
    /// Uniform in 0..n. By convention 0 is the simplest / fault-free outcome.
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.replay {
            Some(s) => {
                let v = s.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
            None => ((u128::from(self.rng.next()) * u128::from(n)) >> 64) as u32,
        };
        if let Some((at, cap)) = self.mirror {
            unsafe {
                let p = at as *mut u32;
                let n = *p as usize;
                if n + 1 < cap {
                    *p.add(n + 1) = v;
                    *p = (n + 1) as u32;
                }
            }
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; a drawn 0 is always `false`.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        let v = self.draw(den);
        v >= den - num && num > 0
    }
    /// Index by weight; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.draw(u32::MAX);
        let lo = self.draw(u32::MAX);
        (u64::from(hi) << 32) | u64::from(lo)
    }
    /// A sub-generator whose whole output is decided by one draw.
    pub fn sub(&mut self) -> Prng {
        let s = self.draw(u32::MAX);
        Prng::new(u64::from(s))
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        match self.draw(8) {
            0 => {}
            1 => v.iter_mut().for_each(|b| *b = 0xff),
            2 => {
                // leading zeros, then noise
                let z = self.below(n.max(1));
                self.sub().fill(&mut v);
                v[..z].iter_mut().for_each(|b| *b = 0);
            }
            _ => self.sub().fill(&mut v),
        }
        v
    }
}
