//! Counts the allocations made in calls of the library.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
}

struct Counting;
#[global_allocator]
static A: Counting = Counting;

fn note() {
    if INSIDE.get() {
        COUNT.set(COUNT.get() + 1);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

struct Back {
    inside: bool,
    count: usize,
}
impl Drop for Back {
    fn drop(&mut self) {
        INSIDE.set(self.inside);
        // what a panic allocates does not count
        if std::thread::panicking() {
            COUNT.set(self.count);
        }
    }
}

fn with<R>(inside: bool, f: impl FnOnce() -> R) -> R {
    let _back = Back { inside: INSIDE.replace(inside), count: COUNT.get() };
    f()
}
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    with(true, f)
}
pub fn own<R>(f: impl FnOnce() -> R) -> R {
    with(false, f)
}
/// How many there were since the last question
pub fn found() -> Option<usize> {
    let n = COUNT.replace(0);
    if n > 0 {
        Some(n)
    } else {
        None
    }
}

/// Does it count at all?
pub fn probe() {
    let v = lib(|| std::hint::black_box(vec![1u8; 100]));
    let w = lib(|| own(|| std::hint::black_box(vec![1u8; 100])));
    if found() != Some(1) || v.len() != w.len() {
        eprintln!("allocations are not counted");
        std::process::exit(3);
    }
}
