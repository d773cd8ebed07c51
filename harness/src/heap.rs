//! The allocator of the harness: counts blocks, and overwrites freed memory so that using it shows.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = LIVE.with(|c| { c.set(c.get() + 1); c.get() });
        PEAK.with(|c| if n > c.get() { c.set(n) });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.with(|c| c.set(c.get() - 1));
        std::ptr::write_bytes(p, 0xD7, l.size().min(128));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { System.realloc(p, l, n) }
}

/// Blocks of this thread now
pub fn live() -> isize { LIVE.with(|c| c.get()) }

/// The blocks which remain after a function, and the most which it had, beyond those before
pub fn measure(f: impl FnOnce()) -> (isize, isize) {
    let before = live();
    PEAK.with(|c| c.set(before));
    f();
    (live() - before, PEAK.with(|c| c.get()) - before)
}
