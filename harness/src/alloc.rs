//! Counting allocator: sums what a thread requests and refuses absurd
//! requests (the process aborts then, which the supervisor reports).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// A single request beyond this is refused.
pub const HARD_LIMIT: usize = 2 << 30;

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn add(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
    let _ = LIVE.try_with(|l| {
        let now = l.get() + n as i64;
        l.set(now);
        let _ = PEAK.try_with(|p| {
            if now > p.get() {
                p.set(now)
            }
        });
    });
}

#[inline]
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > HARD_LIMIT {
            return std::ptr::null_mut();
        }
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and returns its result, the bytes it requested in total
/// and the peak of the live bytes above the level at the start.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let t0 = TOTAL.with(|t| t.get());
    let l0 = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(l0));
    let r = f();
    let t1 = TOTAL.with(|t| t.get());
    let p1 = PEAK.with(|p| p.get());
    (r, t1.wrapping_sub(t0), (p1 - l0).max(0) as u64)
}
