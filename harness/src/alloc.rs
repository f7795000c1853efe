//! Counting allocator: live and peak bytes per thread, and a hard cap that keeps a runaway
//! allocation of the code under test from taking the machine down.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// One thread may not hold more than this.
const CAP: isize = 3 << 30;

fn note(d: isize, size: usize) -> bool {
    CUR.try_with(|c| {
        let n = c.get() + d;
        if d > 0 && n > CAP {
            return false;
        }
        c.set(n);
        if d > 0 {
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n);
                }
            });
            let _ = LARGEST.try_with(|p| {
                if size > p.get() {
                    p.set(size);
                }
            });
            let _ = CALLS.try_with(|p| p.set(p.get() + 1));
            let _ = TOTAL.try_with(|p| p.set(p.get() + size as u64));
        }
        true
    })
    .unwrap_or(true)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize, l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize), 0);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !note(l.size() as isize, l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !note(n as isize - l.size() as isize, n) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}

pub struct Mark {
    base: isize,
}

/// Starts measuring on this thread.
pub fn mark() -> Mark {
    let base = CUR.with(Cell::get);
    PEAK.with(|p| p.set(base));
    LARGEST.with(|p| p.set(0));
    CALLS.with(|p| p.set(0));
    TOTAL.with(|p| p.set(0));
    Mark { base }
}

impl Mark {
    /// most bytes held at once since the mark
    pub fn peak(&self) -> usize {
        (PEAK.with(Cell::get) - self.base).max(0) as usize
    }
    pub fn largest(&self) -> usize {
        LARGEST.with(Cell::get)
    }
    /// sum of the sizes asked for since the mark, whatever has been freed again
    pub fn total(&self) -> u64 {
        TOTAL.with(Cell::get)
    }
    /// bytes held now that were not held at the mark
    pub fn held(&self) -> usize {
        (CUR.with(Cell::get) - self.base).max(0) as usize
    }
}
