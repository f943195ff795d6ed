//! Current case, in a file mapped shared, so that the supervisor knows which case a worker was
//! running when it died (stack overflow, abort).
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicPtr, AtomicU64, Ordering};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub const SIZE: usize = 1 << 20;
const HDR: usize = 64;
static BASE: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());

pub const KIND_NONE: u64 = 0;
pub const KIND_TAPE: u64 = 1;
pub const KIND_ENUM: u64 = 2;

pub fn open(path: &str) {
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("shm file");
    f.set_len(SIZE as u64).expect("shm size");
    let p = unsafe { mmap(std::ptr::null_mut(), SIZE, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1, "mmap");
    BASE.store(p, Ordering::Relaxed);
}

fn slot(i: usize) -> Option<&'static AtomicU64> {
    let p = BASE.load(Ordering::Relaxed);
    if p.is_null() {
        None
    } else {
        Some(unsafe { &*(p.add(i * 8) as *const AtomicU64) })
    }
}
pub fn set(i: usize, v: u64) {
    if let Some(s) = slot(i) {
        s.store(v, Ordering::Relaxed)
    }
}
pub fn set_case(kind: u64, index: u64) {
    set(0, kind);
    set(1, index);
    if let Some(s) = slot(3) {
        s.fetch_add(1, Ordering::Relaxed);
    }
}
pub fn flag_oom() {
    set(4, 1)
}
pub fn set_tape(t: &[u8]) {
    let p = BASE.load(Ordering::Relaxed);
    if p.is_null() {
        return;
    }
    let n = t.len().min(SIZE - HDR);
    unsafe { std::ptr::copy_nonoverlapping(t.as_ptr(), p.add(HDR), n) };
    set(2, n as u64);
}
pub fn push(b: u8) {
    let p = BASE.load(Ordering::Relaxed);
    if p.is_null() {
        return;
    }
    if let Some(s) = slot(2) {
        let n = s.load(Ordering::Relaxed) as usize;
        if n < SIZE - HDR {
            unsafe { *p.add(HDR + n) = b };
            s.store(n as u64 + 1, Ordering::Relaxed);
        }
    }
}

pub struct Snapshot {
    pub kind: u64,
    pub index: u64,
    pub seq: u64,
    pub oom: bool,
    pub tape: Vec<u8>,
}
pub fn read(path: &str) -> Option<Snapshot> {
    let d = std::fs::read(path).ok()?;
    if d.len() < HDR {
        return None;
    }
    let w = |i: usize| u64::from_le_bytes(d[i * 8..i * 8 + 8].try_into().unwrap());
    let n = (w(2) as usize).min(d.len() - HDR);
    Some(Snapshot { kind: w(0), index: w(1), seq: w(3), oom: w(4) == 1, tape: d[HDR..HDR + n].to_vec() })
}
