//! Coverage feedback from the library under test, compiled with SanitizerCoverage: inline 8 bit
//! counters, and the constants it compares with (a dictionary for the generators).
use crate::tape::Rng;
use std::cell::UnsafeCell;

struct Shared<T>(UnsafeCell<T>);
// workers are single threaded; the initialisers run before main
unsafe impl<T> Sync for Shared<T> {}

struct State {
    regions: [(usize, usize); 4096],
    n_regions: usize,
    dict: [u64; DICT_MAX],
    n_dict: usize,
    seen: [u64; 1024], // 65536 bits
    /// comparisons made by the library
    work: u64,
}
pub const DICT_MAX: usize = 1024;
static ST: Shared<State> = Shared(UnsafeCell::new(State {
    regions: [(0, 0); 4096],
    n_regions: 0,
    dict: [0; DICT_MAX],
    n_dict: 0,
    seen: [0; 1024],
    work: 0,
}));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut State {
    unsafe { &mut *ST.0.get() }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
    let s = st();
    let r = (start as usize, stop as usize);
    if r.0 >= r.1 || s.regions[..s.n_regions].contains(&r) || s.n_regions >= s.regions.len() {
        return;
    }
    s.regions[s.n_regions] = r;
    s.n_regions += 1;
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}

fn add(v: u64) {
    let s = st();
    s.work += 1;
    let h = (v.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 48) as usize;
    let (w, b) = (h / 64, 1u64 << (h % 64));
    if s.seen[w] & b != 0 {
        return;
    }
    s.seen[w] |= b;
    if s.n_dict < DICT_MAX {
        s.dict[s.n_dict] = v;
        s.n_dict += 1;
    }
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp1(a: u8, _b: u8) {
    add(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp2(a: u16, _b: u16) {
    add(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _b: u32) {
    add(a as u64)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _b: u64) {
    add(a)
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp1(_a: u8, _b: u8) {
    st().work += 1
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp2(_a: u16, _b: u16) {
    st().work += 1
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp4(_a: u32, _b: u32) {
    st().work += 1
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_cmp8(_a: u64, _b: u64) {
    st().work += 1
}
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    unsafe {
        let n = *cases as usize;
        for i in 0..n.min(64) {
            add(*cases.add(2 + i))
        }
    }
}

/// comparisons that the instrumented library has made so far
pub fn work() -> u64 {
    st().work
}
pub fn dict_len() -> usize {
    st().n_dict
}
pub fn dict() -> Vec<u64> {
    let s = st();
    s.dict[..s.n_dict].to_vec()
}

/// a constant of the library (or next to one), at most `max`
pub fn dict_pick_le(r: &mut Rng, max: u64) -> u64 {
    let s = st();
    if s.n_dict == 0 {
        return r.next() % max.saturating_add(1).max(1);
    }
    for _ in 0..8 {
        let v = s.dict[r.below(s.n_dict as u64) as usize];
        let v = match r.below(4) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            _ => v,
        };
        if v <= max {
            return v;
        }
    }
    r.below(max.min(64).saturating_add(1))
}

pub fn regions_len() -> usize {
    let s = st();
    s.regions[..s.n_regions].iter().map(|(a, b)| b - a).sum()
}

pub struct Coverage {
    virgin: Vec<u8>,
    pub features: u64,
}

const fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3..=5 => 4,
        6..=20 => 8,
        _ => 16,
    }
}
static BUCKETS: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = bucket(i as u8);
        i += 1;
    }
    t
};

impl Coverage {
    pub fn new() -> Self {
        Coverage { virgin: vec![0; regions_len()], features: 0 }
    }
    pub fn reset(&mut self) {
        let s = st();
        for (a, b) in &s.regions[..s.n_regions] {
            unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) }
        }
    }
    /// number of new features of the case that just ran
    pub fn collect(&mut self) -> u32 {
        let s = st();
        let mut off = 0;
        let mut new = 0;
        for (a, b) in &s.regions[..s.n_regions] {
            let n = b - a;
            let mem = unsafe { std::slice::from_raw_parts(*a as *const u8, n) };
            let mut i = 0;
            while i < n {
                if i + 8 <= n {
                    let w = u64::from_le_bytes(mem[i..i + 8].try_into().unwrap());
                    if w == 0 {
                        i += 8;
                        continue;
                    }
                }
                let e = (i + 8).min(n);
                while i < e {
                    let bk = BUCKETS[mem[i] as usize];
                    if bk & !self.virgin[off + i] != 0 {
                        self.virgin[off + i] |= bk;
                        new += 1;
                    }
                    i += 1;
                }
            }
            off += n;
        }
        self.features += new as u64;
        new
    }
}
