//! Global allocator seam: the simulator owns memory.
//!
//! A run gets a budget of allocation calls and of live bytes. Exceeding either ends the (forked) simulated process with
//! a distinct exit code, so "runs away" is decided by a deterministic count and never by a wall clock.
//! The number of allocation calls also serves as the simulated clock of a run.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub const EXIT_CALLS: i32 = 77;
pub const EXIT_BYTES: i32 = 78;

pub struct SimAlloc;

static ARMED: AtomicBool = AtomicBool::new(false);
static CALLS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static MAX_CALLS: AtomicU64 = AtomicU64::new(u64::MAX);
static MAX_LIVE: AtomicU64 = AtomicU64::new(u64::MAX);

thread_local! {
    /// set on simulated caller threads: an allocation is then a scheduling point
    pub static YIELD: Cell<Option<fn()>> = const { Cell::new(None) };
}

#[inline]
fn charge(n: usize) {
    if ARMED.load(Relaxed) {
        let c = CALLS.fetch_add(1, Relaxed) + 1;
        let l = LIVE.fetch_add(n as u64, Relaxed) + n as u64;
        PEAK.fetch_max(l, Relaxed);
        if l > MAX_LIVE.load(Relaxed) {
            unsafe { crate::sys::_exit(EXIT_BYTES) }
        }
        if c > MAX_CALLS.load(Relaxed) {
            unsafe { crate::sys::_exit(EXIT_CALLS) }
        }
        if let Ok(Some(f)) = YIELD.try_with(|y| y.get()) {
            f()
        }
    }
}
#[inline]
fn refund(n: usize) {
    if ARMED.load(Relaxed) {
        let _ = LIVE.fetch_update(Relaxed, Relaxed, |l| Some(l.saturating_sub(n as u64)));
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        charge(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        refund(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            charge(n - l.size());
        } else {
            refund(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Starts metering; returns nothing until `disarm`.
pub fn arm(max_calls: u64, max_live: u64) {
    CALLS.store(0, Relaxed);
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    MAX_CALLS.store(max_calls, Relaxed);
    MAX_LIVE.store(max_live, Relaxed);
    ARMED.store(true, Relaxed);
}
/// (allocation calls, peak live bytes) since `arm`.
pub fn disarm() -> (u64, u64) {
    ARMED.store(false, Relaxed);
    (CALLS.load(Relaxed), PEAK.load(Relaxed))
}
