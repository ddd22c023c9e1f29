//! A counting allocator: current and peak bytes, and a hard limit above which
//! requests are refused (which ends the process; the driver reports the case).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static CUR: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let now = CUR.fetch_add(l.size(), Relaxed) + l.size();
        if now > LIMIT.load(Relaxed) {
            CUR.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(now, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        CUR.fetch_sub(l.size(), Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let now = CUR.fetch_add(l.size(), Relaxed) + l.size();
        if now > LIMIT.load(Relaxed) {
            CUR.fetch_sub(l.size(), Relaxed);
            return std::ptr::null_mut();
        }
        PEAK.fetch_max(now, Relaxed);
        unsafe { System.alloc_zeroed(l) }
    }
}

pub fn current() -> usize {
    CUR.load(Relaxed)
}
/// Start measuring: returns the base line, allows `budget` more bytes.
pub fn start(budget: usize) -> usize {
    let c = current();
    PEAK.store(c, Relaxed);
    LIMIT.store(c.saturating_add(budget), Relaxed);
    c
}
pub fn stop(base: usize) -> usize {
    LIMIT.store(usize::MAX, Relaxed);
    PEAK.load(Relaxed).saturating_sub(base)
}
