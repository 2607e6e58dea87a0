//! A global allocator that refuses one chosen request (or every request from it on) of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Requests below this size are bookkeeping and always granted.
pub const STORAGE: usize = 4096;
pub struct Alloc;
thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static LEFT: Cell<u64> = const { Cell::new(0) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
    /// bytes held by this thread since `track` began, and their maximum; i64::MIN while not tracking
    static HELD: Cell<i64> = const { Cell::new(i64::MIN) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
#[inline]
fn held(d: i64) { let _ = HELD.try_with(|h| { let v = h.get(); if v != i64::MIN { h.set(v + d); if v + d > PEAK.get() { PEAK.set(v + d) } } }); }
/// The most memory the current thread held at once while running `f`, in bytes.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) { HELD.set(0); PEAK.set(0); let r = f(); HELD.set(i64::MIN); (r, PEAK.get() as u64) }
#[inline]
fn refuse(n: usize) -> bool {
    if n < STORAGE { return false }
    MODE.try_with(|m| {
        if m.get() == 0 { return false }
        SEEN.with(|s| s.set(s.get() + 1));
        let l = LEFT.with(|l| { let x = l.get(); l.set(x.saturating_sub(1)); x });
        let no = l == 1 || l == 0 && m.get() == 2;
        if no { REFUSED.with(|r| r.set(r.get() + 1)) }
        no
    }).unwrap_or(false)
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { held(l.size() as i64); if refuse(l.size()) { std::ptr::null_mut() } else { unsafe { System.alloc(l) } } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { held(l.size() as i64); if refuse(l.size()) { std::ptr::null_mut() } else { unsafe { System.alloc_zeroed(l) } } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { held(n as i64 - l.size() as i64); if n > l.size() && refuse(n) { std::ptr::null_mut() } else { unsafe { System.realloc(p, l, n) } } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { held(-(l.size() as i64)); unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

/// Refuses the `k`-th storage request (counting from 1; 0 refuses none) of this thread, or also all later ones.
/// The state survives `pause`/`resume`.
pub fn arm(k: u64, rest: bool) { LEFT.set(if k == 0 { u64::MAX } else { k }); SEEN.set(0); REFUSED.set(0); CURRENT.set(if rest { 2 } else { 1 }) }
thread_local! { static CURRENT: Cell<u8> = const { Cell::new(0) }; }
pub fn refused() -> u64 { REFUSED.get() }
pub fn seen() -> u64 { SEEN.get() }
/// Runs implementation code with the armed fault.
pub fn during<T>(f: impl FnOnce() -> T) -> T {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { MODE.set(0) } }
    let _off = Off;
    MODE.set(CURRENT.get());
    f()
}
/// Turns the death of an infallible request into a panic that `guard` reports.
pub fn install() { std::alloc::set_alloc_error_hook(|l| { MODE.set(0); panic!("an allocation of {} bytes that must not fail was refused", l.size()) }) }
