//! Poisoning allocator: every fresh heap byte is set to a chosen pattern, so that the contents of
//! uninitialised memory are an environment answer the harness decides instead of an accident.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

thread_local! {
    static HOOK: std::cell::Cell<Option<fn()>> = const { std::cell::Cell::new(None) };
}
/// called at every allocation and release made by this thread (scheduling points)
pub fn set_alloc_hook(h: Option<fn()>) {
    HOOK.with(|c| c.set(h))
}
#[inline]
fn point() {
    if let Ok(Some(h)) = HOOK.try_with(|c| c.get()) {
        h()
    }
}
thread_local! {
    static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
    static CALLS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
thread_local! { static OUT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// while set, what this thread takes and gives back is not counted (memory of the harness)
pub fn uncounted(on: bool) {
    OUT.with(|o| o.set(on))
}
/// bytes taken and not given back by this thread
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// forget the peak so far
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
    CALLS.with(|c| c.set(0));
}
/// largest `live` since `reset_peak`, and the number of allocations
pub fn peak() -> (i64, u64) {
    (PEAK.with(|p| p.get()), CALLS.with(|c| c.get()))
}
#[inline]
fn count(d: i64) {
    if OUT.try_with(|o| o.get()).unwrap_or(true) {
        return;
    }
    let _ = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        if d > 0 {
            let _ = CALLS.try_with(|c| c.set(c.get() + 1));
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        }
    });
}
pub static PATTERN: AtomicU8 = AtomicU8::new(0xFF);

pub struct Poison;

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
            std::ptr::write_bytes(p, PATTERN.load(Relaxed), l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // (while it moves, both may exist)
            count(n as i64);
            count(-(l.size() as i64));
        }
        if !q.is_null() && n > l.size() {
            std::ptr::write_bytes(q.add(l.size()), PATTERN.load(Relaxed), n - l.size());
        }
        q
    }
}

#[global_allocator]
static A: Poison = Poison;
