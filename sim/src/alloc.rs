//! Counting allocator: live bytes of the running thread, so that memory bounds are judged by what
//! the code retains rather than by the names of its fields.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
pub struct Counting;

fn add(n: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let _ = BIGGEST.try_with(|b| {
            if l.size() > b.get() {
                b.set(l.size())
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn peak_reset() -> i64 {
    let l = live();
    PEAK.with(|p| p.set(l));
    l
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
