//! Choice tape: every random decision of every generator is a draw from here,
//! so a case is fully described by the list of drawn values.

/// SplitMix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            return self.next();
        }
        ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.upto(n - 1)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(32) ^ 0xA5A5_5A5A_1234_4321);
    r.next();
    let x = r.next();
    Rng(x ^ b).next()
}

enum Source {
    Random(Rng),
    Values(Vec<u64>),
    Bytes(Vec<u8>),
}

pub struct Tape {
    src: Source,
    pos: usize,
    /// A file to use instead of a generated one
    pub raw: Option<Vec<u8>>,
    /// Values actually used
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape { src: Source::Random(Rng(seed)), pos: 0, raw: None, rec: vec![] }
    }
    pub fn values(v: Vec<u64>) -> Self {
        Tape { src: Source::Values(v), pos: 0, raw: None, rec: vec![] }
    }
    /// Tape fed by a fuzzer's bytes
    pub fn bytes(b: Vec<u8>) -> Self {
        Tape { src: Source::Bytes(b), pos: 0, raw: None, rec: vec![] }
    }
    /// Tape of zeros with a file
    pub fn file(b: Vec<u8>) -> Self {
        Tape { raw: Some(b), ..Tape::values(vec![]) }
    }
    /// Draw from 0..=max
    pub fn draw(&mut self, max: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(r) => r.upto(max),
            Source::Values(v) => {
                let x = v.get(self.pos).copied().unwrap_or(0).min(max);
                self.pos += 1;
                x
            }
            Source::Bytes(b) => {
                let n = match max {
                    0 => 0,
                    1..=0xFF => 1,
                    0x100..=0xFFFF => 2,
                    0x1_0000..=0xFFFF_FFFF => 4,
                    _ => 8,
                };
                let mut x = 0u64;
                for i in 0..n {
                    x |= (b.get(self.pos + i).copied().unwrap_or(0) as u64) << (8 * i);
                }
                self.pos += n;
                if max == u64::MAX { x } else { x % (max + 1) }
            }
        };
        self.rec.push(v);
        v
    }
    /// Draw from lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.draw(hi - lo)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; the simplest value is false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // high values mean true, so that shrinking goes to false
        self.draw(den - 1) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.draw(1) == 1
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.draw(xs.len() as u64 - 1) as usize].clone()
    }
    /// Index drawn with the given weights; put the simplest first
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total - 1);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn byte(&mut self) -> u8 {
        match self.weighted(&[5, 3]) {
            0 => self.draw(255) as u8,
            _ => self.pick(&[0, 1, 2, 3, 4, 7, 8, 0x0F, 0x10, 0x1F, 0x20, 0x3F, 0x40, 0x7F, 0x80, 0x81, 0xC0, 0xE0, 0xF7, 0xFE, 0xFF, 0x2C, 0x21, 0x3B]),
        }
    }
    /// 16-bit value with edge cases over-represented
    pub fn word(&mut self) -> u16 {
        match self.weighted(&[3, 3, 3]) {
            0 => self.draw(20) as u16,
            1 => self.draw(65535) as u16,
            _ => self.pick(&[0, 1, 2, 99, 100, 127, 128, 255, 256, 257, 258, 511, 512, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 32769, 65279, 65280, 65281, 65534, 65535]),
        }
    }
    /// A generator for bulk data, seeded from the tape
    pub fn bulk(&mut self) -> Rng {
        Rng(self.draw(0xFFFF_FFFF))
    }
}
