//! Counting allocator: how much memory a call holds at its peak, and a cap on what one run may take.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
static TOTAL: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 2 << 30;

fn add(n: isize) {
    ON.with(|o| {
        if o.get() {
            LIVE.with(|l| {
                let v = l.get() + n;
                l.set(v);
                PEAK.with(|p| p.set(p.get().max(v)));
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        crate::rt::alloc_point();
        if TOTAL.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP {
            TOTAL.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if TOTAL.fetch_add(l.size(), Ordering::Relaxed) + l.size() > CAP {
            TOTAL.fetch_sub(l.size(), Ordering::Relaxed);
            return std::ptr::null_mut();
        }
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        crate::rt::alloc_point();
        TOTAL.fetch_sub(l.size(), Ordering::Relaxed);
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && TOTAL.load(Ordering::Relaxed) + (n - l.size()) > CAP {
            return std::ptr::null_mut();
        }
        TOTAL.fetch_add(n, Ordering::Relaxed);
        TOTAL.fetch_sub(l.size(), Ordering::Relaxed);
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

/// Runs `f` and reports the peak of memory this thread held for it.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    ON.with(|o| o.set(true));
    let r = f();
    ON.with(|o| o.set(false));
    (r, PEAK.with(Cell::get).max(0) as usize)
}
