//! Counting allocator: measures what the library allocates while a window is open, and stops a
//! runaway allocation deterministically (by amount, not by time).
use crate::shm;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(HARD) };
}
/// no case of any property comes near this much live memory
pub const HARD: isize = 1 << 30;

fn note(delta: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if delta > 0 {
            PEAK.with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            TOTAL.with(|t| t.set(t.get().wrapping_add(delta as u64)));
            if v > LIMIT.with(|x| x.get()) {
                shm::flag_oom();
                std::process::abort();
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // counted as both blocks live, as they may be while moving
        note(n as isize);
        let r = System.realloc(p, l, n);
        note(-(l.size() as isize));
        r
    }
}

pub struct Usage {
    pub peak: u64,
    pub total: u64,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let live0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live0));
    let tot0 = TOTAL.with(|t| t.get());
    let r = f();
    let peak = (PEAK.with(|p| p.get()) - live0).max(0) as u64;
    let total = TOTAL.with(|t| t.get()).wrapping_sub(tot0);
    (r, Usage { peak, total })
}
