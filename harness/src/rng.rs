//! Small deterministic generator; every case is reproducible from one u64.
#[derive(Clone)]
pub struct Rng(u64, bool);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15, false)
    }
    /// Let content() give more than random bytes. Not for images whose directory or chains are led astray:
    /// in regular contents those find thousands of long files, and reading them takes hours.
    pub fn varied(mut self, on: bool) -> Rng {
        self.1 = on;
        self
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        ((self.next() >> 11) as usize) % n
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    /// Bytes as a file might hold them: random, or with runs, long zero stretches, repetitions, few values.
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        const SPECIAL: [u8; 10] = [0x00, 0x00, 0xFF, 0xA0, 0x0D, 0x1A, 0x20, 0x01, 0x12, 0x28];
        let mut v = self.bytes(n);
        if !self.1 {
            return v;
        }
        let fill = if self.chance(1, 4) { self.byte() } else { *self.pick(&SPECIAL) };
        match self.below(12) {
            0 => v.iter_mut().for_each(|b| *b = fill),
            1 => {
                // a run at the end
                let k = n - self.below(n + 1).min(700);
                v[k..].iter_mut().for_each(|b| *b = fill);
            }
            2 => {
                // a run at the beginning
                let k = self.below(n + 1).min(700);
                v[..k].iter_mut().for_each(|b| *b = fill);
            }
            3 => {
                // only some bytes differ
                for b in v.iter_mut() {
                    if *b > 3 {
                        *b = fill;
                    }
                }
            }
            4 => v.iter_mut().for_each(|b| *b &= 1),
            5 => {
                // the same again and again
                let p = *self.pick(&[1usize, 2, 127, 254, 256, 508]);
                for i in p..n {
                    v[i] = v[i - p];
                }
            }
            6 => {
                // whole stretches of one value
                let p = *self.pick(&[254usize, 256, 1000]);
                for c in v.chunks_mut(p) {
                    if self.chance(1, 2) {
                        c.iter_mut().for_each(|b| *b = fill);
                    }
                }
            }
            _ => {}
        }
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(23));
    r.next();
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
