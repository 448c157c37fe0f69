//! Counting allocator: live bytes, for the release and bounded-memory oracles.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);

fn up(n: i64) {
    let v = LIVE.fetch_add(n, Relaxed) + n;
    if v > PEAK.load(Relaxed) { PEAK.store(v, Relaxed); }
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { up(l.size() as i64); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as i64, Relaxed); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { up(l.size() as i64); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        up(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

pub fn live() -> i64 { LIVE.load(Relaxed) }
pub fn reset_peak() { PEAK.store(live(), Relaxed) }
pub fn peak() -> i64 { PEAK.load(Relaxed) }
