//! Work budgets. The number of allocations a piece of code makes is a measure of its work that is
//! the same on every machine and in every run, so a budget on it tells runaway work (endless loops,
//! exponential backtracking) from slow hardware. Exceeding a budget ends the process with a code of
//! its own, which the parent reports (and shrinks) like a crash.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

pub const EXIT_WORK: i32 = 96;
pub const EXIT_MEMORY: i32 = 95;
/// largest total size of the allocations made within one budget and not yet freed
const MEMORY: i64 = 3 << 30;
/// largest single allocation, and largest total of all that live, in any thread at any time
const LARGEST: usize = 1 << 30;
const LIVING: i64 = 4 << 30;

thread_local! {
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// LIVE at the start of the budget
    static BASE: Cell<i64> = const { Cell::new(0) };
}

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

fn note(size: usize) {
    let _ = COUNT.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + size as u64));
    if size >= LARGEST {
        unsafe { _exit(EXIT_MEMORY) }
    }
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + size as i64);
        if l.get() > LIVING {
            unsafe { _exit(EXIT_MEMORY) }
        }
        if l.get() - BASE.try_with(|b| b.get()).unwrap_or(0) > MEMORY && ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
            unsafe { _exit(EXIT_MEMORY) }
        }
    });
    let _ = ACTIVE.try_with(|a| {
        if a.get() {
            let _ = LEFT.try_with(|l| {
                if l.get() == 0 {
                    unsafe { _exit(EXIT_WORK) }
                }
                l.set(l.get() - 1);
            });
        }
    });
}
fn freed(size: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - size as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        freed(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        freed(l.size());
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
}

/// allocations made by this thread so far
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}
/// bytes allocated by this thread so far, whether freed or not
pub fn bytes() -> u64 {
    BYTES.with(|c| c.get())
}

/// bytes allocated by this thread and not freed (by it) yet
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        ACTIVE.with(|a| a.set(false));
    }
}

/// Runs `f`, which may make at most `n` allocations; returns how many it made.
pub fn within<T>(n: u64, f: impl FnOnce() -> T) -> (T, u64) {
    let before = count();
    LEFT.with(|l| l.set(n));
    BASE.with(|b| b.set(live()));
    ACTIVE.with(|a| a.set(true));
    let g = Guard;
    let r = f();
    drop(g);
    (r, count() - before)
}
