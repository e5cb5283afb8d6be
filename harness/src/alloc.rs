//! Counting allocator: bytes the code under test holds, and its largest single request, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

/// More than any case needs by far: beyond it, a runaway allocation of the code under test is cut short.
const LIMIT: usize = 2 << 30;
static TOTAL: AtomicUsize = AtomicUsize::new(0);

fn more(n: usize) {
    // under threads of one process only; relaxed is enough for a limit of this kind
    if TOTAL.fetch_add(n, Relaxed) + n > LIMIT {
        std::process::abort();
    }
}
fn less(n: usize) {
    TOTAL.fetch_sub(n, Relaxed);
}

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static LIB: Cell<i64> = const { Cell::new(0) };
}

fn inside() -> bool {
    INSIDE.try_with(|i| i.get()).unwrap_or(false)
}
fn add(n: usize) {
    if inside() {
        let _ = LIB.try_with(|l| l.set(l.get() + n as i64));
        let _ = MAX.try_with(|m| {
            if n > m.get() {
                m.set(n)
            }
        });
    }
}
fn sub(n: usize) {
    if inside() {
        let _ = LIB.try_with(|l| l.set(l.get() - n as i64));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size());
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size());
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        less(l.size());
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        less(l.size());
        more(n);
        sub(l.size());
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn reset_max() {
    MAX.with(|m| m.set(0));
}
pub fn max_single() -> usize {
    MAX.with(|m| m.get())
}

/// Count what happens until dropped as done by the code under test (true) or not (false).
pub struct Scope(bool);
pub fn scope(on: bool) -> Scope {
    Scope(INSIDE.with(|i| i.replace(on)))
}
impl Drop for Scope {
    fn drop(&mut self) {
        let _ = INSIDE.try_with(|i| i.set(self.0));
    }
}
/// Bytes the code under test holds on this thread.
pub fn lib() -> i64 {
    LIB.with(|l| l.get())
}
