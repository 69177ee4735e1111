//! The simulated allocator.
//!
//! Every allocation carries a header. Allocations made while the library under
//! test is running ("tracked") are filled with junk, are counted, can be made to
//! fail at a chosen index, are a scheduling point, and when they are released
//! their memory is poisoned and held back until the run ends so that a write
//! after release or a second release is detected.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub use vbpre::{IN_SUT, QUIET};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicPtr, AtomicU32, AtomicUsize, Ordering::*};

pub struct SimAlloc;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    base_off: usize,
    align: usize,
    next: *mut Header,
}

const HDR: usize = 64;
const LIVE: u64 = 0x5EED_A110_C0DE_0001;
const LIVE_TRACKED: u64 = 0x5EED_A110_C0DE_0002;
const FREED: u64 = 0x5EED_A110_C0DE_0003;

thread_local! {
    /// Allocation index (counted down) at which to fail; negative is never.
    pub static OOM_IN: Cell<i64> = const { Cell::new(-1) };
    pub static OOM_FIRED: Cell<bool> = const { Cell::new(false) };
    pub static SUT_ALLOCS: Cell<u64> = const { Cell::new(0) };
}

/// what this run has allocated more than it has released
static LIVE_COUNT: AtomicIsize = AtomicIsize::new(0);
static EARLIER: AtomicIsize = AtomicIsize::new(0);
static LIVE_BYTES: AtomicIsize = AtomicIsize::new(0);
static QUARANTINE: AtomicPtr<Header> = AtomicPtr::new(std::ptr::null_mut());
static QUARANTINE_BYTES: AtomicUsize = AtomicUsize::new(0);
/// 0 none, 1 second release, 2 write after release, 3 bad pointer
pub static CORRUPT: AtomicU32 = AtomicU32::new(0);

/// Hand released memory out again as soon as something of the same size is wanted.
pub static REUSE: AtomicBool = AtomicBool::new(false);
static HELD: AtomicBool = AtomicBool::new(false);

const QUARANTINE_MAX: usize = 4 << 20;

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let sut = IN_SUT.with(|c| c.get());
        if sut && QUIET.with(|c| c.get()) {
            return raw_alloc(layout, true);
        }
        if sut {
            IN_SUT.with(|c| c.set(false));
            crate::rt::yield_point(crate::rt::Y_ALLOC);
            SUT_ALLOCS.with(|c| c.set(c.get() + 1));
            let fail = OOM_IN.with(|c| {
                let v = c.get();
                if v >= 0 {
                    c.set(v - 1);
                }
                v == 0
            });
            if fail {
                OOM_FIRED.with(|c| c.set(true));
                IN_SUT.with(|c| c.set(true));
                return std::ptr::null_mut();
            }
        }
        let p = raw_alloc(layout, sut);
        if sut {
            IN_SUT.with(|c| c.set(true));
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let sut = IN_SUT.with(|c| c.get());
        if sut && QUIET.with(|c| c.get()) {
            return raw_dealloc(p, layout);
        }
        if sut {
            IN_SUT.with(|c| c.set(false));
            crate::rt::yield_point(crate::rt::Y_FREE);
        }
        raw_dealloc(p, layout);
        if sut {
            IN_SUT.with(|c| c.set(true));
        }
    }
}

unsafe fn raw_alloc(layout: Layout, tracked: bool) -> *mut u8 {
    let align = layout.align().max(16);
    let off = HDR.max(align);
    if tracked && REUSE.load(Relaxed) {
        if let Some(p) = take_back(layout.size(), align) {
            return p;
        }
    }
    let base = System.alloc(Layout::from_size_align_unchecked(
        layout.size() + off,
        align,
    ));
    if base.is_null() {
        return base;
    }
    let p = base.add(off);
    let h = p.sub(HDR) as *mut Header;
    h.write(Header {
        magic: if tracked { LIVE_TRACKED } else { LIVE },
        size: layout.size(),
        base_off: off,
        align,
        next: std::ptr::null_mut(),
    });
    if tracked {
        std::ptr::write_bytes(p, 0xA7, layout.size());
        LIVE_COUNT.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(layout.size() as isize, Relaxed);
    }
    p
}

fn hold() {
    while HELD.compare_exchange(false, true, Acquire, Relaxed).is_err() {
        std::hint::spin_loop();
    }
}

unsafe fn untouched(h: *mut Header) {
    let p = (h as *mut u8).add(HDR);
    for i in 0..(*h).size {
        if *p.add(i) != 0xDD {
            CORRUPT.store(2, Relaxed);
            break;
        }
    }
}

/// The block of this size that was released last.
unsafe fn take_back(size: usize, align: usize) -> Option<*mut u8> {
    hold();
    let mut prev: *mut Header = std::ptr::null_mut();
    let mut h = QUARANTINE.load(Relaxed);
    let mut n = 0;
    while !h.is_null() && n < 64 && !((*h).size == size && (*h).align == align) {
        prev = h;
        h = (*h).next;
        n += 1;
    }
    let found = !h.is_null() && n < 64;
    if found {
        if prev.is_null() {
            QUARANTINE.store((*h).next, Relaxed);
        } else {
            (*prev).next = (*h).next;
        }
        QUARANTINE_BYTES.fetch_sub((*h).size + HDR, Relaxed);
    }
    HELD.store(false, Release);
    if !found {
        return None;
    }
    untouched(h);
    (*h).magic = LIVE_TRACKED;
    (*h).next = std::ptr::null_mut();
    let p = (h as *mut u8).add(HDR);
    std::ptr::write_bytes(p, 0xA7, size);
    LIVE_COUNT.fetch_add(1, Relaxed);
    LIVE_BYTES.fetch_add(size as isize, Relaxed);
    Some(p)
}

unsafe fn release(h: *mut Header) {
    let off = (*h).base_off;
    let size = (*h).size;
    let align = (*h).align;
    let base = (h as *mut u8).add(HDR).sub(off);
    (*h).magic = 0;
    System.dealloc(base, Layout::from_size_align_unchecked(size + off, align));
}

unsafe fn raw_dealloc(p: *mut u8, layout: Layout) {
    let h = p.sub(HDR) as *mut Header;
    match (*h).magic {
        LIVE => {
            if (*h).size != layout.size() {
                CORRUPT.store(3, Relaxed);
                return;
            }
            release(h)
        }
        LIVE_TRACKED => {
            if (*h).size != layout.size() {
                CORRUPT.store(3, Relaxed);
                return;
            }
            LIVE_COUNT.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub((*h).size as isize, Relaxed);
            if QUARANTINE_BYTES.load(Relaxed) > QUARANTINE_MAX {
                release(h);
                return;
            }
            (*h).magic = FREED;
            std::ptr::write_bytes(p, 0xDD, (*h).size);
            QUARANTINE_BYTES.fetch_add((*h).size + HDR, Relaxed);
            hold();
            (*h).next = QUARANTINE.load(Relaxed);
            QUARANTINE.store(h, Relaxed);
            HELD.store(false, Release);
        }
        FREED => CORRUPT.store(1, Relaxed),
        _ => CORRUPT.store(3, Relaxed),
    }
}

/// Tracked blocks that are live, whichever run they are from.
pub fn total() -> isize {
    EARLIER.load(Relaxed) + LIVE_COUNT.load(Relaxed)
}

/// Start a run: nothing tracked is live from here on.
pub fn begin_run() {
    REUSE.store(false, Relaxed);
    EARLIER.fetch_add(LIVE_COUNT.swap(0, Relaxed), Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    CORRUPT.store(0, Relaxed);
}

/// Live tracked (blocks, bytes) of this run.
pub fn live() -> (isize, isize) {
    (LIVE_COUNT.load(Relaxed), LIVE_BYTES.load(Relaxed))
}

/// Check and release everything held back.
pub fn end_run() {
    unsafe {
        let mut h = QUARANTINE.swap(std::ptr::null_mut(), AcqRel);
        while !h.is_null() {
            let next = (*h).next;
            untouched(h);
            release(h);
            h = next;
        }
        QUARANTINE_BYTES.store(0, Relaxed);
    }
}

/// Run library code.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _g = Restore(IN_SUT.with(|c| c.replace(true)));
    f()
}

/// Run harness code from within a callback of the library.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let _g = Restore(IN_SUT.with(|c| c.replace(false)));
    f()
}

struct Restore(bool);

impl Drop for Restore {
    fn drop(&mut self) {
        IN_SUT.with(|c| c.set(self.0));
    }
}

/// Allocate as the library would (so that use after release is noticed), but
/// without scheduling points or faults.
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let q = QUIET.with(|c| c.replace(true));
    let r = sut(f);
    QUIET.with(|c| c.set(q));
    r
}
