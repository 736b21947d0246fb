//! Counting allocator: allocator events (and sleeps) inside an armed region
//! are recorded.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn hit() {
    let _ = ARMED.try_with(|a| {
        if a.get() {
            let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        hit();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        hit();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        hit();
        System.realloc(p, l, n)
    }
}

/// Sleeping is not among the calls RealtimeSanitizer intercepts on this
/// platform (Rust sleeps through `clock_nanosleep`), so it is interposed here.
#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, req: *const u8, rem: *mut u8) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
        fn __errno_location() -> *mut i32;
    }
    hit();
    let was = ARMED.try_with(|a| a.replace(false)).unwrap_or(false);
    let r = if was { 0 } else { syscall(230, clock as i64, flags as i64, req, rem) };
    let _ = ARMED.try_with(|a| a.set(was));
    if r == 0 { 0 } else { *__errno_location() }
}

/// The region RealtimeSanitizer treats as non-blocking.
#[cfg(feature = "rtsan")]
#[sanitize(realtime = "nonblocking")]
#[inline(never)]
fn region<R>(f: impl FnOnce() -> R) -> R {
    f()
}
#[cfg(not(feature = "rtsan"))]
#[inline(always)]
fn region<R>(f: impl FnOnce() -> R) -> R {
    f()
}

/// Runs `f` with the monitors armed; returns the number of allocator events.
pub fn armed<R>(f: impl FnOnce() -> R) -> (R, u64) {
    COUNT.with(|c| c.set(0));
    ARMED.with(|a| a.set(true));
    let r = region(f);
    ARMED.with(|a| a.set(false));
    (r, COUNT.with(|c| c.get()))
}
