//! The choice tape: every random decision of every generator goes through `Src`.
//!
//! In generation mode the values come from a seeded generator and are recorded; in replay mode they
//! come from the recorded tape (and are 0 past its end), so a case is a pure function of its tape
//! and shrinking is an operation on the tape alone.

pub struct Rng(u64, u64, u64, u64);

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng(splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s))
    }
    pub fn next(&mut self) -> u64 {
        // xoshiro256**
        let r = self.1.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.1 << 17;
        self.2 ^= self.0;
        self.3 ^= self.1;
        self.1 ^= self.2;
        self.0 ^= self.3;
        self.2 ^= t;
        self.3 = self.3.rotate_left(45);
        r
    }
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    /// when set, every draw is also appended to this file (used to recover the tape of a case that kills the process)
    pub dump: Option<std::fs::File>,
}

impl Src {
    pub fn from_seed(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), dump: None }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, dump: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }

    /// uniform in 0..n; `n == 0` means the full u64 range
    fn draw(&mut self, n: u64) -> u64 {
        let v = if let Some(rng) = &mut self.rng {
            let r = rng.next();
            let v = if n == 0 { r } else { ((r as u128 * n as u128) >> 64) as u64 };
            self.tape.push(v);
            if let Some(f) = &mut self.dump {
                use std::io::Write;
                let _ = f.write_all(&v.to_le_bytes());
            }
            v
        } else {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            if n == 0 { v } else { v.min(n - 1) }
        };
        self.pos += 1;
        v
    }

    pub fn raw(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        self.draw(n as u64) as usize
    }
    pub fn below64(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n)
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// index by weight; shrinks towards index 0
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    /// a size in 0..=max, biased to small ones
    pub fn size(&mut self, max: usize) -> usize {
        let m = match self.weighted(&[2, 6, 5, 3]) {
            0 => 2,
            1 => 16,
            2 => max / 8,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
    /// like `size`, now and then far above `max`
    pub fn wide(&mut self, max: usize) -> usize {
        if self.chance(1, 200) {
            let m = max << self.range(1, 6);
            return self.below(m + 1);
        }
        self.size(max)
    }
    pub fn size1(&mut self, max: usize) -> usize {
        1 + self.size(max - 1)
    }
    /// any u64, with many boundary values and all bit lengths
    pub fn u64_any(&mut self) -> u64 {
        match self.weighted(&[3, 4, 1, 1]) {
            0 => self.below64(17),
            1 => {
                let bits = self.range(0, 64) as u32;
                let r = self.raw();
                if bits == 0 {
                    0
                } else {
                    r >> (64 - bits)
                }
            }
            2 => {
                // around powers of two
                let k = self.below(64) as u32;
                let d = self.below64(5);
                (1u64 << k).wrapping_add(d).wrapping_sub(2)
            }
            _ => u64::MAX - self.below64(4),
        }
    }
    pub fn i64_any(&mut self) -> i64 {
        match self.below(4) {
            0 => self.below(17) as i64 - 8,
            1 => i64::MIN.wrapping_add(self.below(4) as i64),
            2 => i64::MAX - self.below(4) as i64,
            _ => {
                let v = self.u64_any();
                if self.coin() {
                    (v as i64).wrapping_neg()
                } else {
                    v as i64
                }
            }
        }
    }
    pub fn i32_any(&mut self) -> i32 {
        match self.below(4) {
            0 => self.below(17) as i32 - 8,
            1 => i32::MIN + self.below(4) as i32,
            2 => i32::MAX - self.below(4) as i32,
            _ => self.u64_any() as i32,
        }
    }
    /// `len` bytes of one of several textures; uses few draws whatever the length
    /// bytes of any number up to `max`
    pub fn bytes_any(&mut self, max: usize) -> Vec<u8> {
        let n = self.size(max);
        self.bytes(n)
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        if len == 0 {
            return vec![];
        }
        match self.below(5) {
            0 => {
                if len <= 32 {
                    (0..len).map(|_| self.below(256) as u8).collect()
                } else {
                    let mut r = Rng::new(self.raw());
                    (0..len).map(|_| r.next() as u8).collect()
                }
            }
            1 => {
                let b = self.pick(&[0u8, 0xff, 1, 0x80, 0x7f, b'a']);
                vec![b; len]
            }
            2 => {
                // short period
                let p = self.range(1, 7);
                let pat: Vec<u8> = (0..p).map(|_| self.below(256) as u8).collect();
                (0..len).map(|i| pat[i % p]).collect()
            }
            3 => {
                let mut r = Rng::new(self.raw());
                (0..len).map(|_| r.next() as u8).collect()
            }
            _ => {
                // text-like, low entropy, with long repeats
                let mut r = Rng::new(self.raw());
                let mut out: Vec<u8> = Vec::with_capacity(len);
                while out.len() < len {
                    if out.len() > 8 && r.next() % 3 == 0 {
                        let start = (r.next() as usize) % out.len();
                        let n = 1 + (r.next() as usize) % 40;
                        for i in 0..n {
                            let b = out[start + i % (out.len() - start)];
                            out.push(b);
                        }
                    } else {
                        out.push(b'a' + (r.next() % 26) as u8);
                    }
                }
                out.truncate(len);
                out
            }
        }
    }
    pub fn rng(&mut self) -> Rng {
        Rng::new(self.raw())
    }
}
