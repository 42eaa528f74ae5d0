//! Counting allocator (per thread).

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static NET: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64, blocks: i64) {
    let _ = NET.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    if blocks > 0 {
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64), -1);
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, 1);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // Both may exist during the move.
            add(new as i64, 1);
            add(-(l.size() as i64), -1);
        }
        q
    }
}

pub fn net() -> i64 {
    NET.with(|c| c.get())
}
pub fn blocks() -> i64 {
    BLOCKS.with(|c| c.get())
}
/// Restart the peak from the present amount.
pub fn reset_peak() {
    PEAK.with(|p| p.set(net()));
}
pub fn peak() -> i64 {
    PEAK.with(|c| c.get())
}
