//! The allocator, behind a seam: the system's, with a record of the biggest
//! single request this thread made.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static PEAK: Cell<usize> = const { Cell::new(0) };
}

pub struct Gauge;

fn note(n: usize) {
    let _ = PEAK.try_with(|p| {
        if n > p.get() {
            p.set(n)
        }
    });
}

unsafe impl GlobalAlloc for Gauge {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    PEAK.with(|p| p.set(0))
}
pub fn peak() -> usize {
    PEAK.with(|p| p.get())
}
