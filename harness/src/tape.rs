//! Choice tape: every random decision of a case is a byte of the tape, so that a case is a pure
//! function of its tape. Fresh cases extend the tape from the PRNG; mutation, shrinking and replay
//! work on the recorded tape (zeroes are read past its end).
use crate::cov;
use crate::shm;

#[derive(Clone)]
pub struct Rng(u64, u64);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Rng(a, b)
    }
    // xoroshiro128+
    pub fn next(&mut self) -> u64 {
        let s0 = self.0;
        let mut s1 = self.1;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        r
    }
    pub fn byte(&mut self) -> u8 {
        (self.next() >> 40) as u8
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            (self.next() >> 11) % n
        }
    }
}

pub struct Src {
    pub tape: Vec<u8>,
    pos: usize,
    rng: Option<Rng>,
}

pub const TAPE_MAX: usize = 1 << 18;

impl Src {
    pub fn replay(tape: Vec<u8>) -> Self {
        shm::set_tape(&tape);
        Src { tape, pos: 0, rng: None }
    }
    pub fn fresh(prefix: Vec<u8>, rng: Rng) -> Self {
        shm::set_tape(&prefix);
        Src { tape: prefix, pos: 0, rng: Some(rng) }
    }
    /// all zeroes
    pub fn quiet() -> Self {
        Src { tape: Vec::new(), pos: 0, rng: None }
    }
    /// the part of the tape that has been consumed
    pub fn into_tape(mut self) -> Vec<u8> {
        self.tape.truncate(self.pos);
        self.tape
    }
    pub fn consumed(&self) -> usize {
        self.pos
    }
    fn push(&mut self, b: u8) {
        self.tape.push(b);
        shm::push(b);
    }
    pub fn byte(&mut self) -> u8 {
        if self.pos >= self.tape.len() {
            if self.pos >= TAPE_MAX {
                return 0;
            }
            match &mut self.rng {
                None => {
                    // reading past the end of a replayed tape
                    return 0;
                }
                Some(r) => {
                    let b = r.byte();
                    self.push(b);
                }
            }
        }
        let b = self.tape[self.pos];
        self.pos += 1;
        b
    }
    /// `n` bytes, little endian; when they are fresh, the value is chosen by `f`
    fn word(&mut self, n: usize, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        if self.pos >= self.tape.len() && self.pos + n <= TAPE_MAX {
            if let Some(r) = &mut self.rng {
                let v = f(r);
                for i in 0..n {
                    self.push((v >> (8 * i)) as u8);
                }
            }
        }
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.byte() as u64) << (8 * i);
        }
        v
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let w = if n <= 0x100 {
            1
        } else if n <= 0x1_0000 {
            2
        } else if n <= 0x1_0000_0000 {
            4
        } else {
            8
        };
        let v = self.word(w, |r| r.below(n));
        v % n
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// true with probability num/256 (zero byte means false)
    pub fn chance(&mut self, num: u32) -> bool {
        (self.byte() as u32) >= 256 - num.min(256)
    }
    pub fn bool(&mut self) -> bool {
        self.byte() & 1 == 1
    }
    pub fn raw_u64(&mut self) -> u64 {
        self.word(8, |r| r.next())
    }
    pub fn raw_u32(&mut self) -> u32 {
        self.word(4, |r| r.next() >> 13) as u32
    }
    pub fn raw_u16(&mut self) -> u16 {
        self.word(2, |r| r.next() >> 13) as u16
    }
    /// index by weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.below(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    /// interesting 64 bit value: boundaries, powers of two, constants the library compares with
    pub fn u64(&mut self) -> u64 {
        match self.byte() % 8 {
            0 | 1 => self.below(32),
            2 => self.word(8, |r| {
                let c = magnets(r);
                c
            }),
            3 | 4 => {
                let bit = self.below(65);
                let base = if bit == 64 { 0u64 } else { 1u64 << bit };
                let d = self.below(9) as i64 - 4;
                base.wrapping_add(d as u64)
            }
            5 => {
                let bits = 1 + self.below(64);
                let v = self.raw_u64();
                v >> (64 - bits)
            }
            6 => {
                const B: [u64; 22] = [
                    0, 19, 20, 23, 24, 25, 31, 32, 127, 128, 255, 256, 257, 65535, 65536, 65537,
                    0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000,
                    u64::MAX - 1, u64::MAX,
                ];
                *self.pick(&B)
            }
            _ => self.raw_u64(),
        }
    }
    /// size up to max (inclusive): mostly small, sometimes a boundary or a constant of the library
    pub fn size(&mut self, max: u64) -> usize {
        let v = match self.byte() % 16 {
            0..=6 => self.below(4),
            7..=10 => self.below(9),
            11 | 12 => self.below(33),
            13 => {
                const B: [u64; 16] =
                    [0, 1, 2, 3, 4, 8, 16, 22, 23, 24, 25, 31, 32, 33, 64, 128];
                *self.pick(&B)
            }
            14 => self.word(8, |r| {
                let m = cov::dict_pick_le(r, max);
                m
            }),
            _ => {
                const B: [u64; 12] =
                    [63, 65, 127, 129, 254, 255, 256, 257, 258, 511, 512, 1023];
                *self.pick(&B)
            }
        };
        v.min(max) as usize
    }
}

fn magnets(r: &mut Rng) -> u64 {
    cov::dict_pick_le(r, u64::MAX)
}
