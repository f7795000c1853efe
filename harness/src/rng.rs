//! Deterministic generator (splitmix64); every random choice of the harness comes from here.
#[derive(Clone)]
pub struct Rng(u64, bool);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, prop: u64, case: u64) -> Self {
        let a = mix(seed.wrapping_add(0x9E37_79B9_7F4A_7C15));
        let b = mix(a ^ prop.wrapping_mul(0xD6E8_FEB8_6659_FD93));
        // every third case prefers the literals of the code
        Rng(mix(b ^ case.wrapping_mul(0xA076_1D64_78BD_642F)), case % 3 == 2)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((u128::from(self.u64()) * u128::from(n)) >> 64) as u64
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        if self.1 && b - a >= 6 && self.below(8) == 0 {
            if let Some(v) = self.lit(a, b) {
                return v;
            }
        }
        a + self.idx(b - a + 1)
    }
    /// A number that occurs in the code, or one next to it, in a..=b.
    pub fn lit(&mut self, a: usize, b: usize) -> Option<usize> {
        let d = crate::dict::get().filter(|_| self.1)?;
        for _ in 0..4 {
            let v = if d.new_nums.is_empty() || self.below(4) == 0 { &d.nums } else { &d.new_nums };
            if v.is_empty() {
                return None;
            }
            let v = *self.pick(v) as usize;
            let v = match self.below(10) {
                0 | 1 => v.wrapping_add(1),
                2 | 3 => v.wrapping_sub(1),
                4 => v.wrapping_mul(2),
                5 if v < 24 => 1 << v,
                _ => v,
            };
            if (a..=b).contains(&v) {
                return Some(v);
            }
        }
        None
    }
    /// A byte string that occurs in the code.
    pub fn lit_bytes(&mut self) -> Option<&'static [u8]> {
        let d = crate::dict::get().filter(|_| self.1)?;
        let v = if d.new_strs.is_empty() || self.below(4) == 0 { &d.strs } else { &d.new_strs };
        (!v.is_empty()).then(|| &**self.pick(v))
    }
    pub fn byte(&mut self) -> u8 {
        self.u64() as u8
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let r = self.u64().to_le_bytes();
            let k = (n - v.len()).min(8);
            v.extend_from_slice(&r[..k]);
        }
        v
    }
    /// any u16, boundary values preferred
    pub fn u16e(&mut self) -> u16 {
        if self.1 && self.below(4) == 0 {
            if let Some(v) = self.lit(0, 65_535) {
                return v as u16;
            }
        }
        match self.below(6) {
            0 => *self.pick(&[0u16, 1, 2, 127, 128, 255, 256, 257, 511, 512, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, 0x00FF, 0x0100]),
            1 | 2 => self.below(300) as u16,
            3 => self.below(20) as u16,
            _ => self.u64() as u16,
        }
    }
    pub fn u8e(&mut self) -> u8 {
        if self.1 && self.below(4) == 0 {
            if let Some(v) = self.lit(0, 255) {
                return v as u8;
            }
        }
        match self.below(3) {
            0 => *self.pick(&[0u8, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255]),
            _ => self.byte(),
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    let mut it = b.chunks_exact(8);
    for c in it.by_ref() {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    mix(h ^ u64::from_le_bytes(last).wrapping_add(1))
}

pub fn hash2(a: u64, b: u64) -> u64 {
    mix(a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678))
}
