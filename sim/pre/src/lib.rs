//! Scheduling points inside the library.
//!
//! The library and the simulator are compiled with calls to the functions
//! below at every branch of control flow and every memory access (see
//! rustc.sh); this crate is not. While library code runs on a simulated thread
//! the calls count down to the next point at which another thread may run.

use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};

thread_local! {
    /// true while library code is running on this thread
    pub static IN_SUT: Cell<bool> = const { Cell::new(false) };
    /// library code is running, but is not scheduled
    pub static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Points left until the hook is called; negative is never.
pub static LEFT: AtomicI64 = AtomicI64::new(-1);
/// Points passed while the countdown was on.
pub static PASSED: AtomicU64 = AtomicU64::new(0);
static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

/// Whether accesses to static memory are points of their own.
pub static STATICS: AtomicBool = AtomicBool::new(false);
static FROM: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);
static STATIC_HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub fn set_hooks(code: fn(), statics: fn()) {
    let (from, to) = (&raw const __data_start as usize, &raw const _end as usize);
    FROM.store(from, Relaxed);
    LEN.store(to.saturating_sub(from), Relaxed);
    STATIC_HOOK.store(statics as *mut (), Relaxed);
    HOOK.store(code as *mut (), Relaxed);
}

#[inline(always)]
fn point() {
    let left = LEFT.load(Relaxed);
    if left < 0 || !IN_SUT.with(|c| c.get()) || QUIET.with(|c| c.get()) {
        return;
    }
    PASSED.store(PASSED.load(Relaxed) + 1, Relaxed);
    if left > 0 {
        LEFT.store(left - 1, Relaxed);
        return;
    }
    reached(&HOOK);
}

/// Memory that all threads see is about to be read or written.
#[inline(always)]
fn access(p: *const u8) {
    if (p as usize).wrapping_sub(FROM.load(Relaxed)) < LEN.load(Relaxed) && STATICS.load(Relaxed) && IN_SUT.with(|c| c.get()) && !QUIET.with(|c| c.get()) {
        reached(&STATIC_HOOK);
        return;
    }
    point()
}

#[cold]
fn reached(hook: &AtomicPtr<()>) {
    IN_SUT.with(|c| c.set(false));
    let f: fn() = unsafe { std::mem::transmute(hook.load(Relaxed)) };
    f();
    IN_SUT.with(|c| c.set(true));
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    point()
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

macro_rules! access {
    ($($name:ident)*) => {
        $(
            #[no_mangle]
            pub extern "C" fn $name(p: *const u8) {
                access(p)
            }
        )*
    };
}

access! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
