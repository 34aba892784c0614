//! An allocator that keeps count, and fills memory that is not (or no longer) to be read with garbage
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local!(static LIVE: Cell<i64> = const { Cell::new(0) });
/// What this thread has allocated and not freed, in bytes
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
fn count(n: i64) {
    LIVE.with(|c| c.set(c.get() + n))
}

pub struct Counted;
const FILL: usize = 1 << 20;
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
            std::ptr::write_bytes(p, 0xA6, l.size().min(FILL));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        std::ptr::write_bytes(p, 0xD9, l.size().min(FILL));
        // not lost to the optimizer
        std::hint::black_box(p);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
