//! Counting allocator: what the thread under observation allocates.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() { let _ = CALLS.try_with(|c| c.set(c.get() + 1)); let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() { let _ = CALLS.try_with(|c| c.set(c.get() + 1)); let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64)); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() { let _ = CALLS.try_with(|c| c.set(c.get() + 1)); let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64)); }
        q
    }
}

pub fn calls() -> u64 { CALLS.with(|c| c.get()) }
pub fn live() -> i64 { LIVE.with(|c| c.get()) }
