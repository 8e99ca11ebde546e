//! Small deterministic PRNG (splitmix64) and a 64-bit hash.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Rng {
        let mut s = 0x243f6a8885a308d3u64;
        for &p in parts {
            s = mix(s ^ mix(p.wrapping_add(0x9e3779b97f4a7c15)));
        }
        Rng(s)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
}

pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) -> &mut H {
        self.0 = mix(self.0 ^ mix(x.wrapping_add(0x632be59bd9b4e019)));
        self
    }
    pub fn s(&mut self, v: &[u32]) -> &mut H {
        self.u(v.len() as u64 + 0x1000);
        for &x in v {
            self.u(x as u64);
        }
        self
    }
}

/// values that text handling likes to treat specially
pub const SPECIAL: [u32; 46] = [
    0, 1, 9, 10, 13, 31, 32, 34, 39, 47, 48, 57, 58, 64, 65, 70, 71, 92, 96, 97, 102, 103, 117, 123, 125, 126, 127, 128, 0xFF, 0x100, 0x7FF, 0x800,
    0xD7FF, 0xD800, 0xD83D, 0xDBFF, 0xDC00, 0xDE00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x2FFFF, 0x30000,
];

/// a character up to 0x2FFFF
pub fn special_char(r: &mut Rng) -> u32 {
    match r.below(8) {
        0..=2 => (*r.pick(&SPECIAL)).min(0x2FFFF),
        3 => 0xD800 + r.below(0x400) as u32,
        4 => 0xDC00 + r.below(0x400) as u32,
        5 => *r.pick(&[0xA0, 0xAD, 0xDF, 0xE9, 0x130, 0x131, 0x17F, 0x1E9E, 0x300, 0x301, 0x200B, 0x200D, 0x2028, 0x202E, 0x3000, 0xFE0F, 0xFEFF, 0xFFFE]),
        6 => (r.range(1, 2) as u32) << 16 | *r.pick(&SPECIAL) & 0xFFFF,
        _ => r.below(0x30000) as u32,
    }
}
