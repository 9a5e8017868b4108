//! Counting allocator with a per-thread cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CAP: Cell<isize> = const { Cell::new(isize::MAX) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// Exit code of a process which ran into its memory cap
pub const EXIT_MEM: i32 = 97;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
        let _ = CAP.try_with(|c| {
            if v > c.get() {
                // no unwinding out of an allocator: end the process
                unsafe { libc::_exit(EXIT_MEM) }
            }
        });
    });
}

fn count(n: usize) {
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        count(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        count(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        count(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Bytes a thread may have allocated beyond what it has now
pub fn set_cap(bytes: Option<usize>) {
    let live = LIVE.with(|l| l.get());
    CAP.with(|c| c.set(bytes.map_or(isize::MAX, |b| live + b as isize)));
}

/// Measure the peak of extra memory allocated by `f` on this thread
pub fn peak_of<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

/// Measure all bytes requested by `f` on this thread, given back or not
pub fn total_of<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let base = TOTAL.with(|t| t.get());
    let r = f();
    (r, TOTAL.with(|t| t.get()) - base)
}
