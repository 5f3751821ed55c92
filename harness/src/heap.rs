//! The largest single allocation of a thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
}

pub struct Watch;

// SAFETY: everything is passed on to the system allocator.
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

fn note(n: usize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n);
        }
    });
}

/// Run `f`; the size of the largest single allocation this thread asked for meanwhile.
pub fn largest<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = MAX.with(|m| m.replace(0));
    let r = f();
    let n = MAX.with(|m| m.replace(before));
    (r, n)
}
