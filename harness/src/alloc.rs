//! Counting allocator: live and peak bytes per thread, and a hard per-request cap so that a hostile
//! allocation is an immediate, reproducible abort (reported by the parent) instead of eating the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<usize> = const { Cell::new(0) };
}

/// No case of any check legitimately asks for this much at once.
pub const REQUEST_CAP: usize = 1 << 28;

fn add(n: i64, req: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = MAXREQ.try_with(|m| {
        if req > m.get() {
            m.set(req)
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REQUEST_CAP {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REQUEST_CAP {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64), 0);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REQUEST_CAP {
            return std::ptr::null_mut();
        }
        // Count the worst case: old and new blocks both live during the copy.
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64, n);
            add(-(l.size() as i64), 0);
        }
        q
    }
}

/// Runs f and returns its result, the peak of additional live bytes and the largest single request.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, i64, usize) {
    warm();
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    MAXREQ.with(|m| m.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    let req = MAXREQ.with(|m| m.get());
    (r, peak - base, req)
}

/// Tables of the harness that are filled on first use would otherwise count as memory of the code under test.
fn warm() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        crate::dynserde::names(0, 1);
        crate::dynserde::names(1, 1);
        crate::conc::all();
    });
}
