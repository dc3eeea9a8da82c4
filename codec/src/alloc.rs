//! Counting allocator: per-thread live/peak bytes while metering is on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static MAX: Cell<usize> = const { Cell::new(0) };
}

/// While metering, one request above this is refused (no honest decode of our inputs needs it), so that a
/// runaway allocation cannot take the machine down; the resulting abort is attributed to the case.
const REFUSE: usize = 1 << 30;

fn add(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let l = LIVE.get() + n;
            LIVE.set(l);
            if l > PEAK.get() {
                PEAK.set(l);
            }
            if n > 0 && n as usize > MAX.get() {
                MAX.set(n as usize);
            }
        }
    });
}
fn refuse(n: usize) -> bool {
    n > REFUSE && ON.try_with(|o| o.get()).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        // lazily zeroed memory is harmless until touched: count it, do not refuse it
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        add(n as isize - l.size() as isize);
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
}

/// Runs f and returns (result, peak bytes above the start, largest single request).
pub fn metered<R>(f: impl FnOnce() -> R) -> (R, usize, usize) {
    LIVE.set(0);
    PEAK.set(0);
    MAX.set(0);
    ON.set(true);
    let r = f();
    ON.set(false);
    (r, PEAK.get().max(0) as usize, MAX.get())
}
