//! Counting allocator: measures the memory an operation of the reader needs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn up(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}
fn down(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            up(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        down(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            down(l.size());
            up(n);
        }
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn mark() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}
pub fn peak_since(mark: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(mark)
}
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
