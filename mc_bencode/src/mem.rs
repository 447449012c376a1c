//! Counting allocator: current and peak heap use of this process.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let now = LIVE.load(Relaxed).wrapping_add(n);
    LIVE.store(now, Relaxed);
    if now > PEAK.load(Relaxed) {
        PEAK.store(now, Relaxed);
    }
}
fn sub(n: usize) {
    LIVE.store(LIVE.load(Relaxed).wrapping_sub(n), Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            add(n - l.size());
        } else {
            sub(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

/// Peak heap use of `f` beyond what was in use before, and what stays in use.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let before = LIVE.load(Relaxed);
    PEAK.store(before, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(before))
}
