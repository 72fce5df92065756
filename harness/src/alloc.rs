//! Global allocator that counts per thread and can refuse memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

/// no single allocation larger than this, ever (a test must not exhaust the machine)
const CAP: usize = 1 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static REFUSE: Cell<usize> = const { Cell::new(usize::MAX) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

fn refuse(size: usize) -> bool {
    let r = size > CAP || REFUSE.try_with(|r| size >= r.get()).unwrap_or(false);
    if r {
        let _ = REFUSED.try_with(|c| c.set(c.get() + 1));
    }
    r
}

fn note(d: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + d;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        note(-(l.size() as i64));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            note(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && refuse(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            note(n as i64);
            note(-(l.size() as i64));
        }
        q
    }
}

/// Bytes this thread has allocated and not freed
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// How far the memory in use grew meanwhile
pub fn growth<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let l = live();
    let outer = PEAK.with(|p| p.replace(l));
    let r = f();
    let g = PEAK.with(|p| p.get()) - l;
    PEAK.with(|p| p.set(p.get().max(outer)));
    (r, g)
}

/// Refuse allocations of `size` bytes or more meanwhile; also how many were refused
pub fn refusing<T>(size: usize, f: impl FnOnce() -> T) -> (T, u64) {
    struct Restore(usize);
    impl Drop for Restore {
        fn drop(&mut self) {
            REFUSE.with(|r| r.set(self.0));
        }
    }
    let n = REFUSED.with(|r| r.get());
    let _restore = Restore(REFUSE.with(|r| r.replace(size)));
    let v = f();
    (v, REFUSED.with(|r| r.get()) - n)
}
